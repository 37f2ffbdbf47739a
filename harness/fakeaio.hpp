// A stand-in for the kernel's asynchronous I/O (linked with --wrap on the libaio
// entry points and on pread/pwrite).  It answers as the kernel may: queue full,
// partial submission, refusal, interrupted wait, spurious wake-up, completions
// in any order, failed and short transfers.  In real mode the calls go through.
#pragma once
#include <atomic>
#include <cerrno>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <libaio.h>
#include <map>
#include <mutex>
#include <time.h>
#include <unistd.h>
#include <vector>

extern "C" {
int     __real_io_setup(int, io_context_t*);
int     __real_io_destroy(io_context_t);
int     __real_io_submit(io_context_t, long, struct iocb**);
int     __real_io_getevents(io_context_t, long, long, struct io_event*, struct timespec*);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
}

namespace fakeaio {

struct Config
{
    bool     fake{false};
    unsigned eagain{0}, partial{0}, refuse{0}, refuse_mid{0}, eintr{0}, spurious{0}; // out of 256
    unsigned io_err{0}, io_short{0}; // per operation, out of 256
    bool     reorder{true};
    unsigned delay_us{0};
    bool     sparse{false}; // only the ends of the very large writes reach the file
};

struct Pending
{
    struct iocb cb;
};

struct Kernel
{
    std::mutex                m;
    Config                    cfg;
    uint64_t                  rng{1};
    std::map<void*, int64_t>  truth;     // buffer -> result handed out
    std::map<void*, int>      delivered; // buffer -> completions handed out
    std::atomic<uint64_t>     n_eagain{0}, n_partial{0}, n_refused{0}, n_eintr{0}, n_lost{0},
        n_io_err{0}, n_short{0};
    unsigned row_eagain{0}, row_eintr{0};

    bool roll(unsigned p)
    {
        return p != 0 && next() % 256 < p;
    }
    uint64_t next()
    {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        return rng >> 16;
    }
    void start(const Config& c, uint64_t seed)
    {
        std::lock_guard<std::mutex> l(m);
        cfg = c;
        rng = seed | 1;
        truth.clear();
        delivered.clear();
        n_eagain = n_partial = n_refused = n_eintr = n_lost = n_io_err = n_short = 0;
        row_eagain = row_eintr = 0;
    }
};
inline Kernel& kernel()
{
    static Kernel* k = new Kernel;
    return *k;
}

struct Ctx
{
    std::mutex              m;
    std::condition_variable cv;
    size_t                  capacity;
    std::vector<Pending>    q;
};
constexpr uint64_t kMagic = 0xFA7EA10FA7EA10ULL;
struct Handle
{
    uint64_t magic;
    Ctx*     ctx;
};

// contexts are only compared by address: never freed while the process lives
inline std::map<void*, Ctx*>& table()
{
    static auto* t = new std::map<void*, Ctx*>;
    return *t;
}
inline std::mutex& table_m()
{
    static auto* m = new std::mutex;
    return *m;
}
inline Ctx* find(io_context_t c)
{
    std::lock_guard<std::mutex> l(table_m());
    auto                        it = table().find(reinterpret_cast<void*>(c));
    return it == table().end() ? nullptr : it->second;
}
inline void nap(unsigned us)
{
    if (us) {
        struct timespec ts = {0, static_cast<long>(us) * 1000L};
        nanosleep(&ts, nullptr);
    }
}
} // namespace fakeaio

extern "C" {
int __wrap_io_setup(int n, io_context_t* out)
{
    using namespace fakeaio;
    if (!kernel().cfg.fake) {
        return __real_io_setup(n, out);
    }
    auto* c     = new Ctx;
    c->capacity = static_cast<size_t>(n);
    std::lock_guard<std::mutex> l(table_m());
    table()[c] = c;
    *out       = reinterpret_cast<io_context_t>(c);
    return 0;
}
int __wrap_io_destroy(io_context_t h)
{
    using namespace fakeaio;
    Ctx* c = find(h);
    if (!c) {
        return __real_io_destroy(h);
    }
    {
        std::lock_guard<std::mutex> l(c->m);
        kernel().n_lost += c->q.size();
    }
    std::lock_guard<std::mutex> l(table_m());
    table().erase(reinterpret_cast<void*>(h));
    delete c;
    return 0;
}
static ssize_t write_at(const fakeaio::Config& cfg, int fd, const void* b, size_t n, off_t o)
{
    constexpr size_t kEnd = 4096;
    if (!cfg.sparse || n <= 4 * kEnd) {
        return __real_pwrite(fd, b, n, o);
    }
    const char* d = static_cast<const char*>(b);
    if (__real_pwrite(fd, d, kEnd, o) != static_cast<ssize_t>(kEnd)
        || __real_pwrite(fd, d + n - kEnd, kEnd, o + static_cast<off_t>(n - kEnd))
               != static_cast<ssize_t>(kEnd)) {
        return -1;
    }
    return static_cast<ssize_t>(n);
}
int __wrap_io_submit(io_context_t h, long nr, struct iocb** cbs)
{
    using namespace fakeaio;
    Kernel& k = kernel();
    Ctx*    c = find(h);
    if (!c) {
        return __real_io_submit(h, nr, cbs);
    }
    if (nr <= 0) {
        return nr == 0 ? 0 : -EINVAL;
    }
    bool     eagain, partial, refuse, mid;
    uint64_t r;
    {
        std::lock_guard<std::mutex> l(k.m);
        eagain = k.roll(k.cfg.eagain) && k.row_eagain < 6;
        k.row_eagain = eagain ? k.row_eagain + 1 : 0;
        partial = k.roll(k.cfg.partial);
        refuse  = k.roll(k.cfg.refuse);
        mid     = k.roll(k.cfg.refuse_mid);
        r       = k.next();
    }
    (void)mid;
    if (refuse) {
        k.n_refused++;
        static const int errs[] = {-EINVAL, -EBADF, -EFAULT, -ENOMEM};
        return errs[r % 4];
    }
    std::lock_guard<std::mutex> l(c->m);
    size_t                      room = c->capacity > c->q.size() ? c->capacity - c->q.size() : 0;
    if (eagain || room == 0) {
        k.n_eagain++;
        return -EAGAIN;
    }
    size_t n = std::min(room, static_cast<size_t>(nr));
    if (partial && n > 1) {
        n = 1 + r % (n - 1);
    }
    if (n < static_cast<size_t>(nr)) {
        k.n_partial++;
    }
    for (size_t i = 0; i < n; ++i) {
        c->q.push_back({*cbs[i]});
    }
    c->cv.notify_all();
    return static_cast<int>(n);
}
int __wrap_io_getevents(
    io_context_t h, long min_nr, long nr, struct io_event* ev, struct timespec* to)
{
    using namespace fakeaio;
    Kernel& k = kernel();
    Ctx*    c = find(h);
    bool    eintr, spurious;
    {
        std::lock_guard<std::mutex> l(k.m);
        eintr        = k.roll(k.cfg.eintr) && k.row_eintr < 8;
        k.row_eintr  = eintr ? k.row_eintr + 1 : 0;
        spurious     = k.roll(k.cfg.spurious);
    }
    if (eintr) {
        k.n_eintr++;
        errno = EINTR;
        return -EINTR;
    }
    struct timespec shortened = {0, 1000000}; // the library polls every 100 ms
    if (!c) {
        if (spurious) {
            return 0;
        }
        if (to && (to->tv_sec > 0 || to->tv_nsec > 1000000)) {
            to = &shortened;
        }
        return __real_io_getevents(h, min_nr, nr, ev, to);
    }
    std::vector<Pending> got;
    {
        std::unique_lock<std::mutex> l(c->m);
        c->cv.wait_for(l, std::chrono::microseconds(500), [&] { return !c->q.empty(); });
        if (c->q.empty() || spurious) {
            return 0;
        }
        size_t   n;
        uint64_t r;
        {
            std::lock_guard<std::mutex> kl(k.m);
            r = k.next();
            n = 1 + r % std::min(c->q.size(), static_cast<size_t>(nr));
            for (size_t i = 0; i < n; ++i) {
                size_t j = k.cfg.reorder ? k.next() % c->q.size() : 0;
                got.push_back(c->q[j]);
                c->q.erase(c->q.begin() + static_cast<long>(j));
            }
        }
        // the slots of the completed requests are free again
    }
    nap(k.cfg.delay_us);
    int n = 0;
    for (auto& p : got) {
        bool    err, shrt;
        int64_t res;
        {
            std::lock_guard<std::mutex> l(k.m);
            err  = k.roll(k.cfg.io_err);
            shrt = !err && k.roll(k.cfg.io_short);
        }
        size_t len = p.cb.u.c.nbytes;
        if (shrt && len > 512) {
            len -= 512;
            k.n_short++;
        }
        if (err) {
            res = -EIO;
            k.n_io_err++;
        } else if (p.cb.aio_lio_opcode == IO_CMD_PREAD) {
            res = __real_pread(p.cb.aio_fildes, p.cb.u.c.buf, len, p.cb.u.c.offset);
            res = res < 0 ? -errno : res;
        } else {
            res = write_at(k.cfg, p.cb.aio_fildes, p.cb.u.c.buf, len, p.cb.u.c.offset);
            res = res < 0 ? -errno : res;
        }
        {
            std::lock_guard<std::mutex> l(k.m);
            k.truth[p.cb.u.c.buf] = res;
            k.delivered[p.cb.u.c.buf]++;
        }
        ev[n].data = p.cb.data;
        ev[n].obj  = nullptr;
        ev[n].res  = static_cast<unsigned long>(res);
        ev[n].res2 = 0;
        ++n;
    }
    return n;
}
static ssize_t faulty(bool rd, int fd, void* b, size_t n, off_t o)
{
    using namespace fakeaio;
    Kernel& k = kernel();
    bool    err = false, shrt = false;
    {
        std::lock_guard<std::mutex> l(k.m);
        err  = k.roll(k.cfg.io_err);
        shrt = k.roll(k.cfg.io_short);
    }
    nap(k.cfg.delay_us);
    ssize_t r;
    if (err) {
        k.n_io_err++;
        errno = EIO;
        r     = -1;
    } else {
        if (shrt && n > 512) {
            n -= 512;
            k.n_short++;
        }
        r = rd ? __real_pread(fd, b, n, o) : write_at(k.cfg, fd, b, n, o);
    }
    int                         e = errno;
    std::lock_guard<std::mutex> l(k.m);
    k.truth[b] = r;
    k.delivered[b]++;
    errno = e;
    return r;
}
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o)
{
    return faulty(true, fd, b, n, o);
}
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o)
{
    return faulty(false, fd, const_cast<void*>(b), n, o);
}
}
