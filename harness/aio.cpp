// C07: every submitted I/O completes exactly once, faults included
#include "pbt.hpp"
#define CHAOS_WRAP
#include "chaos.hpp"
#include "fakeaio.hpp"

#include <sse/schemes/abstractio/scheduler.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <iostream>
#include <thread>

using pbt::Ctx;
using namespace sse::abstractio;

namespace {

constexpr size_t kPage = 4096;

uint8_t pattern(size_t off)
{
    return static_cast<uint8_t>((off * 131) ^ (off >> 9) * 17);
}

struct Op
{
    bool     write{false};
    size_t   len{0};
    size_t   off{0};
    bool     bad{false}; // refused by the argument checks of the Linux scheduler
    uint8_t* raw{nullptr};
    uint8_t* buf{nullptr};
    // observed
    std::atomic<int>     calls{0};
    std::atomic<int64_t> res{0};
};

struct Submission
{
    std::vector<size_t> ops; // indices; more than one, or batch: submit_preads
    bool                batch{false};
    int                 ret{0};
    bool                done{false};
};

void io_body(Ctx& c, bool linux_aio)
{
    fakeaio::Kernel& k = fakeaio::kernel();
    fakeaio::Config  cfg;
    cfg.fake      = linux_aio && !c.chance(1, 8);
    unsigned mode = static_cast<unsigned>(c.weighted({2, 3, 2}));
    if (mode == 1) {
        auto p = [&] { return c.flip() ? static_cast<unsigned>(c.in(1, 150)) : 0U; };
        cfg.eagain   = p();
        cfg.partial  = p();
        cfg.refuse   = p();
        cfg.eintr    = p();
        cfg.spurious = p();
        cfg.io_err   = p();
        cfg.io_short = p();
    } else if (mode == 2) { // one kind of fault, often
        unsigned* f[] = {&cfg.eagain, &cfg.partial, &cfg.refuse, &cfg.eintr, &cfg.spurious,
                         &cfg.io_err, &cfg.io_short};
        *f[c.u(6)] = static_cast<unsigned>(c.in(60, 220));
    }
    cfg.reorder    = c.flip();
    cfg.delay_us   = c.chance(1, 4) ? static_cast<unsigned>(c.u(200)) : 0;
    size_t   psize = c.flip() ? 512 : kPage;
    unsigned nev   = static_cast<unsigned>(c.flip() ? c.in(1, 4) : c.in(5, 128));
    size_t   nthr  = c.weighted({3, 2, 1}) + 1;
    unsigned chaos_level = static_cast<unsigned>(c.u(2));
    uint64_t cseed       = c.seed64();
    uint64_t kseed       = c.seed64();
    bool     destroy_only = c.flip();
    c.note("%s, %zu submitting threads, queue of %u, page %zu; faults out of 256: eagain %u, partial %u, "
           "refuse %u, eintr %u, spurious %u, error %u, short %u; chaos %u",
           linux_aio ? (cfg.fake ? "linux scheduler, simulated kernel" : "linux scheduler, real kernel")
                     : "thread pool scheduler",
           nthr, nev, psize, cfg.eagain, cfg.partial, cfg.refuse, cfg.eintr, cfg.spurious, cfg.io_err,
           cfg.io_short, chaos_level);

    // the file: a readable part followed by a part for the writes
    const size_t read_size = 16 * kPage;
    // sometimes past the limits of 31 and 32 bits integers: the file is sparse
    size_t base = c.chance(1, 4) ? kPage * ((size_t(1) << c.in(17, 24)) - c.u(20)) : 0;
    if (base != 0) {
        c.note("the files start at %zu", base);
        c.label("large offsets");
    }
    std::string  path      = c.dir() + "/file";
    int          fd        = open(path.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600);
    if (fd < 0) {
        throw std::runtime_error("cannot create the scratch file");
    }
    int wfd = open((path + ".w").c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600);
    if (wfd < 0) {
        throw std::runtime_error("cannot create the scratch file");
    }
    {
        std::vector<uint8_t> content(read_size);
        for (size_t i = 0; i < read_size; ++i) {
            content[i] = pattern(i);
        }
        if (__real_pwrite(fd, content.data(), read_size, static_cast<off_t>(base)) != static_cast<ssize_t>(read_size)) {
            throw std::runtime_error("cannot fill the scratch file");
        }
    }

    size_t                               n_ops = c.in(1, c.chance(1, 6) ? 60 : 14);
    std::vector<std::unique_ptr<Op>>     ops;
    std::vector<std::vector<Submission>> plan(nthr);
    size_t                               wslot = 0;
    auto                                 make  = [&](bool allow_write) {
        std::unique_ptr<Op> o(new Op);
        o->write  = allow_write && c.chance(1, 3);
        o->len    = 512 * (c.chance(1, 20) ? c.edgy(1, 512) : c.edgy(1, 8));
        if (o->write) {
            o->off = base + 64 * kPage * wslot++; // in a file of their own
        } else {
            o->off = base + 512 * c.u(read_size / 512 + 2); // may straddle or pass the end
        }
        size_t shift = 0;
        if (linux_aio && c.chance(1, 10)) {
            o->bad = true;
            switch (c.u(2)) {
            case 0: shift = 8; break;
            case 1: o->len += 100; break;
            default: o->off += 4; break;
            }
        }
        void* p = nullptr;
        if (posix_memalign(&p, kPage, o->len + 2 * kPage) != 0) {
            throw std::bad_alloc();
        }
        o->raw = static_cast<uint8_t*>(p);
        o->buf = o->raw + shift;
        if (o->write) {
            for (size_t i = 0; i < o->len; ++i) {
                o->buf[i] = static_cast<uint8_t>(pattern(o->off + i) ^ 0x5A);
            }
        } else {
            memset(o->buf, 0xEE, o->len);
        }
        ops.push_back(std::move(o));
        return ops.size() - 1;
    };
    bool any_write = c.flip();
    while (ops.size() < n_ops) {
        Submission s;
        size_t     t = c.u(nthr - 1);
        if (c.chance(1, 3)) {
            s.batch  = true;
            size_t k2 = c.edgy(1, c.chance(1, 10) ? 60 : 8);
            for (size_t i = 0; i < k2; ++i) {
                s.ops.push_back(make(false));
            }
        } else {
            s.ops.push_back(make(any_write));
        }
        plan[t].push_back(s);
    }
    for (size_t t = 0; t < nthr; ++t) {
        for (auto& s : plan[t]) {
            std::string l;
            for (auto i : s.ops) {
                auto& o = *ops[i];
                l += (o.write ? " w" : " r") + std::to_string(o.len) + "@" + std::to_string(o.off)
                     + (o.bad ? "(bad)" : "");
            }
            if (ops.size() < 40) {
                c.note("  thread %zu: %s%s", t, s.batch ? "batch" : "single", l.c_str());
            }
        }
    }

    k.start(cfg, kseed);
    chaos::start(cseed, chaos_level);
    std::atomic<int> late{0}; // callbacks after the wait
    std::atomic<bool> over{false};
    auto run = [&](std::unique_ptr<Scheduler>& sched, std::vector<Submission>& subs) {
        for (auto& s : subs) {
            auto cb_of = [&](size_t i) {
                Op* o = ops[i].get();
                return [o, &late, &over](void* data, int64_t r) {
                    if (data == o) {
                        o->res = r;
                        o->calls++;
                    } else {
                        o->calls += 1000; // somebody else's data
                    }
                    if (over) {
                        late++;
                    }
                };
            };
            if (s.batch) {
                std::vector<Scheduler::PReadSumission> v;
                for (auto i : s.ops) {
                    auto& o = *ops[i];
                    v.emplace_back(fd, o.buf, o.len, o.off, &o, cb_of(i));
                }
                s.ret = sched->submit_preads(v);
            } else {
                auto& o = *ops[s.ops[0]];
                s.ret   = o.write ? sched->submit_pwrite(wfd, o.buf, o.len, static_cast<off_t>(o.off), &o,
                                                       cb_of(s.ops[0]))
                                  : sched->submit_pread(fd, o.buf, o.len, static_cast<off_t>(o.off), &o,
                                                      cb_of(s.ops[0]));
            }
            s.done = true;
        }
    };
    {
        std::unique_ptr<Scheduler> sched(linux_aio ? make_linux_aio_scheduler(psize, nev)
                                                   : make_thread_pool_aio_scheduler());
        if (c.chance(1, 8)) { // a duplicate is as good as the original
            std::unique_ptr<Scheduler> d(sched->duplicate());
            sched = std::move(d);
            c.label("duplicate");
        }
        std::vector<std::thread> ts;
        for (size_t t = 1; t < nthr; ++t) {
            ts.emplace_back([&, t] { run(sched, plan[t]); });
        }
        run(sched, plan[0]);
        for (auto& t : ts) {
            t.join();
        }
        if (!destroy_only) {
            sched->wait_completions();
            over = true;
            if (linux_aio) {
                Op   extra;
                auto r = sched->submit_pread(fd, ops[0]->raw, 512, 0, &extra, [&](void*, int64_t) {
                    extra.calls++;
                });
                PBT_ASSERT(c, r < 0, "a submission after wait_completions() returned %d", r);
                PBT_ASSERT(c, extra.calls == 0, "a refused submission was called back");
            }
        } else {
            sched.reset();
            over = true;
        }
        // all the accepted operations have called back by now
        for (size_t t = 0; t < nthr; ++t) {
            for (auto& s : plan[t]) {
                int    n_called = 0, n_good = 0;
                for (auto i : s.ops) {
                    Op& o = *ops[i];
                    PBT_ASSERT(c,
                               o.calls < 1000,
                               "operation %zu was given the data of another operation",
                               i);
                    PBT_ASSERT(c, o.calls <= 1, "operation %zu called back %d times", i, o.calls.load());
                    PBT_ASSERT(c, !(o.bad && o.calls), "invalid operation %zu was accepted", i);
                    n_called += o.calls;
                    n_good += !o.bad;
                }
                int accepted = s.ret < 0 ? 0 : s.ret;
                PBT_ASSERT(c,
                           accepted <= n_good,
                           "a submission of %d valid operations returned %d",
                           n_good,
                           s.ret);
                PBT_ASSERT(c,
                           n_called == accepted,
                           "a %s of %zu operations returned %d, %d called back%s",
                           s.batch ? "batch" : "single submission",
                           s.ops.size(),
                           s.ret,
                           n_called,
                           destroy_only ? " before the end of the destructor"
                                        : " before the end of wait_completions()");
                if (k.n_refused == 0 && cfg.refuse == 0 && (cfg.fake || !linux_aio)) {
                    PBT_ASSERT(c,
                               s.batch || s.ops.size() == 1,
                               "internal: plan");
                    PBT_ASSERT(c,
                               accepted == n_good,
                               "%d valid operations were submitted, the kernel refused none, "
                               "%d were accepted",
                               n_good,
                               s.ret);
                }
            }
        }
    }
    chaos::stop();
    PBT_ASSERT(c, late == 0, "%d callbacks after the end of the wait", late.load());
    PBT_ASSERT(c,
               k.n_lost == 0,
               "%" PRIu64 " operations were in flight when the context was destroyed",
               k.n_lost.load());
    bool   faults = k.n_eagain + k.n_partial + k.n_refused + k.n_eintr + k.n_io_err + k.n_short > 0;
    size_t ok     = 0;
    for (size_t i = 0; i < ops.size(); ++i) {
        Op& o = *ops[i];
        if (!o.calls) {
            continue;
        }
        int64_t want;
        auto    it = k.truth.find(o.buf);
        if (it != k.truth.end()) {
            PBT_ASSERT(c, k.delivered[o.buf] == 1, "operation %zu was executed twice", i);
            want = it->second;
        } else {
            want = o.write ? static_cast<int64_t>(o.len)
                           : std::max<int64_t>(0, std::min<int64_t>(static_cast<int64_t>(o.len),
                                                                    static_cast<int64_t>(base + read_size)
                                                                        - static_cast<int64_t>(o.off)));
        }
        PBT_ASSERT(c,
                   o.res == want,
                   "operation %zu: result %" PRId64 " instead of %" PRId64,
                   i,
                   o.res.load(),
                   want);
        if (want <= 0) {
            continue;
        }
        ++ok;
        if (o.write) {
            std::vector<uint8_t> back(static_cast<size_t>(want));
            PBT_ASSERT(c,
                       __real_pread(wfd, back.data(), back.size(), static_cast<off_t>(o.off)) == want
                           && memcmp(back.data(), o.buf, back.size()) == 0,
                       "operation %zu: the file does not hold what was written",
                       i);
        } else {
            for (size_t j = 0; j < static_cast<size_t>(want); ++j) {
                PBT_ASSERT(c,
                           o.buf[j] == pattern(o.off - base + j),
                           "operation %zu: wrong byte read at %zu",
                           i,
                           o.off + j);
            }
        }
    }
    for (auto& o : ops) {
        free(o->raw);
    }
    close(fd);
    close(wfd);
    c.nontrivial(ok >= 2 && (faults || nthr > 1));
    c.label(k.n_eagain ? "eagain" : "no eagain");
    c.label(k.n_partial ? "partial" : "no partial");
    c.label(k.n_refused ? "refused" : "no refused");
    c.label(k.n_eintr ? "eintr" : "no eintr");
    c.label(k.n_io_err ? "io error" : "no io error");
    c.label(k.n_short ? "short" : "no short");
    c.label(cfg.fake ? "simulated kernel" : "real kernel");
}

} // namespace

#if defined(__SANITIZE_ADDRESS__)
#define SUFFIX "_asan"
#elif defined(__SANITIZE_THREAD__)
#define SUFFIX "_tsan"
#else
#define SUFFIX ""
#endif

int main(int argc, char** argv)
{
    std::cerr.rdbuf(nullptr);
    std::cout.rdbuf(nullptr);
    sse::logger::set_logging_level(spdlog::level::off);
    std::vector<pbt::Check> checks(2);
    checks[0].property       = "C07";
    checks[0].name           = "linux" SUFFIX;
    checks[0].rule           = "random single/batched reads and writes from 1..3 threads on the Linux AIO "
                     "scheduler over a simulated (or the real) kernel with random faults; "
                     "non-trivial: >=2 successful operations, and a fault or several threads";
    checks[0].body           = [](Ctx& c) { io_body(c, true); };
    checks[0].quick_cases    = 12000;
    checks[0].thorough_cases = 600000;
    checks[0].scheduled      = true;
    checks[0].needs_dir      = true;
    checks[0].case_timeout_s = 25;
    checks[1]                = checks[0];
    checks[1].name           = "thread_pool" SUFFIX;
    checks[1].rule           = "the same histories on the thread-pool scheduler, with failing and short "
                     "transfers; non-trivial as above";
    checks[1].body           = [](Ctx& c) { io_body(c, false); };
#if defined(__SANITIZE_THREAD__) || defined(__SANITIZE_ADDRESS__)
    checks[0].quick_cases    = 4000;
    checks[0].thorough_cases = 100000;
    checks[1].quick_cases    = 12000;
    checks[1].thorough_cases = 300000;
#endif
    return pbt::Engine(argc, argv, checks).run();
}
