// C08: persistent counters, C09: key-value and list stores, C10: process crashes
#include "pbt.hpp"

#include <sse/schemes/abstractio/awonvm_vector.hpp>
#include <sse/schemes/utils/rocksdb_wrapper.hpp>

#include <dlfcn.h>
#include <atomic>
#include <iostream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>

using pbt::Ctx;
using namespace sse::sophos;

// ---------------------------------------------------------------- kill points
// These definitions take precedence over the C library's for RocksDB as well.
namespace kill_points {
struct Shared
{
    std::atomic<uint64_t> acked;    // operations that returned
    std::atomic<uint64_t> syscalls; // storage system calls so far
    std::atomic<int>      finished;
    std::atomic<uint64_t> opened;
};
Shared*  shared   = nullptr;
bool     armed    = false;
uint64_t kill_at  = 0; // 1-based; 0: never
bool     torn     = false;

void die()
{
    kill(getpid(), SIGKILL);
    for (;;) {
        pause();
    }
}
// returns true if the process must die in this call
bool step()
{
    if (!armed) {
        return false;
    }
    return ++shared->syscalls == kill_at;
}
template<class F>
F real(F& cache, const char* name)
{
    if (!cache) {
        cache = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    }
    return cache;
}
} // namespace kill_points

extern "C" {
ssize_t write(int fd, const void* b, size_t n)
{
    static ssize_t (*f)(int, const void*, size_t) = nullptr;
    kill_points::real(f, "write");
    if (kill_points::step()) {
        if (kill_points::torn && n > 1) {
            (void)!f(fd, b, n / 2);
        }
        kill_points::die();
    }
    return f(fd, b, n);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o)
{
    static ssize_t (*f)(int, const void*, size_t, off64_t) = nullptr;
    kill_points::real(f, "pwrite64");
    if (kill_points::step()) {
        kill_points::die();
    }
    return f(fd, b, n, o);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
{
    return pwrite64(fd, b, n, o);
}
int fdatasync(int fd)
{
    static int (*f)(int) = nullptr;
    kill_points::real(f, "fdatasync");
    if (kill_points::step()) {
        kill_points::die();
    }
    return f(fd);
}
int fsync(int fd)
{
    static int (*f)(int) = nullptr;
    kill_points::real(f, "fsync");
    if (kill_points::step()) {
        kill_points::die();
    }
    return f(fd);
}
int rename(const char* a, const char* b)
{
    static int (*f)(const char*, const char*) = nullptr;
    kill_points::real(f, "rename");
    if (kill_points::step()) {
        kill_points::die();
    }
    return f(a, b);
}
int ftruncate64(int fd, off64_t n)
{
    static int (*f)(int, off64_t) = nullptr;
    kill_points::real(f, "ftruncate64");
    if (kill_points::step()) {
        kill_points::die();
    }
    return f(fd, n);
}
int ftruncate(int fd, off_t n)
{
    return ftruncate64(fd, n);
}
}

namespace {

// ------------------------------------------------------------------- counters

std::string gen_key(Ctx& c)
{
    static const std::string fixed[] = {
        "",     std::string(1, '\0'), std::string(2, '\0'), "a",   "aa",
        "b",    std::string("a\0", 2), std::string("a\0b", 3), "\xff", "\xff\xff",
        "key1", "key10",               "key",                  std::string(300, 'k'),
        std::string(299, 'k'),         "caf\xc3\xa9"};
    if (c.chance(3, 4)) {
        return fixed[c.u(15)];
    }
    return c.bytes(c.edgy(0, 40));
}
std::string show(const std::string& s)
{
    std::string o;
    for (unsigned char ch : s.substr(0, 12)) {
        char b[8];
        snprintf(b, sizeof b, ch >= 33 && ch < 127 ? "%c" : "\\x%02x", ch);
        o += b;
    }
    return "\"" + o + (s.size() > 12 ? "..." + std::to_string(s.size()) : "") + "\"";
}

using CounterModel = std::map<std::string, uint32_t>;

void compare_counter(Ctx& c, RocksDBCounter& db, const CounterModel& m, const std::set<std::string>& keys, const char* when)
{
    for (auto& k : keys) {
        uint32_t v  = 0xABCDEF01;
        bool     ok = db.get(k, v);
        auto     it = m.find(k);
        PBT_ASSERT(c,
                   ok == (it != m.end()),
                   "%s: get(%s) says %s, it %s",
                   when,
                   show(k).c_str(),
                   ok ? "found" : "not found",
                   it != m.end() ? "exists" : "does not exist");
        PBT_ASSERT(c,
                   !ok || v == it->second,
                   "%s: get(%s) gives %u instead of %u",
                   when,
                   show(k).c_str(),
                   v,
                   it == m.end() ? 0 : it->second);
    }
}

void counter_body(Ctx& c)
{
    std::string                     path = c.dir() + "/ctr";
    std::unique_ptr<RocksDBCounter> db(new RocksDBCounter(path));
    CounterModel                    m;
    std::set<std::string>           keys;
    std::vector<std::string>        pool;
    size_t                          np = c.in(1, 6);
    for (size_t i = 0; i < np; ++i) {
        pool.push_back(gen_key(c));
    }
    keys.insert(pool.begin(), pool.end());
    keys.insert(gen_key(c));
    size_t steps = c.in(1, 60), writes = 0, reopens = 0, repeats = 0;
    for (size_t s = 0; s < steps; ++s) {
        const std::string& k  = pool[c.u(pool.size() - 1)];
        auto               it = m.find(k);
        bool               full = it != m.end() && it->second == UINT32_MAX;
        switch (c.weighted({8, 4, 3, 2, 5, 1, 1, 1})) {
        case 0: {
            if (full) {
                break;
            }
            uint32_t v = 77;
            c.note("get_and_increment(%s)", show(k).c_str());
            PBT_ASSERT(c, db->get_and_increment(k, v), "get_and_increment failed");
            uint32_t want = it == m.end() ? 0 : it->second + 1;
            PBT_ASSERT(c, v == want, "get_and_increment(%s) gave %u instead of %u", show(k).c_str(), v, want);
            repeats += it != m.end();
            m[k] = want;
            ++writes;
            break;
        }
        case 1: {
            if (full) {
                break;
            }
            uint32_t d = static_cast<uint32_t>(c.chance(1, 2) ? 0 : c.edgy(0, UINT32_MAX - 1000));
            bool     deflt = d == 0 && c.flip();
            c.note("increment(%s, %u)", show(k).c_str(), d);
            PBT_ASSERT(c, deflt ? db->increment(k) : db->increment(k, d), "increment failed");
            repeats += it != m.end();
            m[k] = it == m.end() ? d : it->second + 1;
            ++writes;
            break;
        }
        case 2: {
            uint32_t v = static_cast<uint32_t>(c.edgy(0, UINT32_MAX));
            c.note("set(%s, %u)", show(k).c_str(), v);
            PBT_ASSERT(c, db->set(k, v), "set failed");
            m[k] = v;
            ++writes;
            break;
        }
        case 3:
            c.note("remove_key(%s)", show(k).c_str());
            PBT_ASSERT(c, db->remove_key(k), "remove_key failed");
            m.erase(k);
            ++writes;
            break;
        case 4: compare_counter(c, *db, m, {k}, "during the history"); break;
        case 5: {
            bool b = c.flip();
            c.note("flush(%d)", b);
            db->flush(b);
            break;
        }
        case 6: {
            c.note("reopen");
            db.reset();
            db.reset(new RocksDBCounter(path));
            ++reopens;
            compare_counter(c, *db, m, keys, "after reopening");
            break;
        }
        default: {
            c.note("open the store a second time");
            bool refused = false;
            try {
                RocksDBCounter other(path);
            } catch (const std::exception&) {
                refused = true;
            }
            PBT_ASSERT(c, refused, "a store that is in use was opened a second time");
        }
        }
    }
    compare_counter(c, *db, m, keys, "at the end");
    if (c.flip()) {
        db.reset();
        db.reset(new RocksDBCounter(path));
        compare_counter(c, *db, m, keys, "after the last reopening");
    }
    c.nontrivial(writes >= 3 && repeats >= 1);
    c.label(reopens ? "reopened" : "not reopened");
}

// several threads update the same counters at once
void counter_concurrent_body(Ctx& c)
{
    struct COp2
    {
        int    kind; // 0: get_and_increment, 1: increment, 2: get, 3: set of a private key, 4: flush
        size_t key;
    };
    std::string              path = c.dir() + "/ctr";
    std::vector<std::string> keys;
    std::set<std::string>    uniq;
    size_t                   nk = c.in(1, 3), nt = c.in(2, 5);
    while (keys.size() < nk) {
        std::string k = gen_key(c);
        if (uniq.insert(k).second) {
            keys.push_back(k);
        } else {
            keys.push_back("fresh" + std::to_string(keys.size()));
        }
    }
    uint32_t start = c.flip() ? static_cast<uint32_t>(c.edgy(0, 70000)) : 0;
    bool     known = start != 0 || c.flip(); // the counters exist already
    int      mix   = static_cast<int>(c.u(2)); // get_and_increment, increment, or both
    std::vector<std::vector<COp2>> plan(nt);
    std::vector<size_t>            adds(nk);
    size_t                         total = 0;
    for (auto& p : plan) {
        size_t n = c.in(1, 60);
        for (size_t i = 0; i < n; ++i) {
            size_t k  = c.u(nk - 1);
            int    op = static_cast<int>(c.weighted({12, 2, 1, 1}));
            op        = op == 0 ? (mix == 2 ? static_cast<int>(c.u(1)) : mix) : op + 1;
            adds[k] += op <= 1;
            total += op <= 1;
            p.push_back({op, k});
        }
    }
    c.note("%zu threads, %zu counters, %zu increments, initial value %s%u", nt, nk, total, known ? "" : "none ", start);
    std::vector<std::vector<std::pair<size_t, uint32_t>>> got(nt);
    std::atomic<size_t>                                   ready{0}, failed{0}, back{0};
    auto check = [&](RocksDBCounter& db, const char* when) {
        for (size_t k = 0; k < nk; ++k) {
            uint32_t v  = 0;
            bool     ok = db.get(keys[k], v);
            size_t   n  = adds[k];
            PBT_ASSERT(c, ok == (known || n > 0), "%s: counter #%zu is %s", when, k, ok ? "set" : "not set");
            if (ok) {
                uint32_t want = static_cast<uint32_t>((known ? start + 1 : 0) + n - 1);
                PBT_ASSERT(c, v == want, "%s: counter #%zu is %u after %zu concurrent increments, instead of %u", when, k, v, n, want);
            }
        }
    };
    {
        RocksDBCounter db(path);
        if (known) {
            for (auto& k : keys) {
                db.set(k, start);
            }
        }
        std::vector<std::thread> ts;
        for (size_t t = 0; t < nt; ++t) {
            ts.emplace_back([&, t] {
                std::string own = "private" + std::to_string(t);
                std::vector<int64_t> last(nk, -1);
                ++ready;
                while (ready < nt) {
                }
                uint32_t n = 0;
                for (auto& o : plan[t]) {
                    uint32_t v = 0;
                    switch (o.kind) {
                    case 0:
                        failed += !db.get_and_increment(keys[o.key], v);
                        got[t].push_back({o.key, v});
                        back += static_cast<int64_t>(v) <= last[o.key];
                        last[o.key] = v;
                        break;
                    case 1: failed += !db.increment(keys[o.key]); break;
                    case 2:
                        if (db.get(keys[o.key], v)) {
                            back += static_cast<int64_t>(v) < last[o.key];
                            last[o.key] = std::max<int64_t>(last[o.key], v);
                        }
                        break;
                    default:
                        ++n;
                        failed += !db.set(own, n) || !db.get(own, v) || v != n;
                    }
                }
            });
        }
        for (auto& t : ts) {
            t.join();
        }
        PBT_ASSERT(c, failed == 0, "%zu operations failed", failed.load());
        PBT_ASSERT(c, back == 0, "a thread saw a counter go backwards %zu times", back.load());
        std::set<std::pair<size_t, uint32_t>> seen;
        for (auto& g : got) {
            for (auto& e : g) {
                PBT_ASSERT(c, seen.insert(e).second, "two calls of get_and_increment gave %u for counter #%zu", e.second, e.first);
            }
        }
        check(db, "after the threads");
    }
    if (c.chance(1, 4)) {
        RocksDBCounter db(path);
        check(db, "after reopening");
    }
    c.nontrivial(total > 10);
}

// ------------------------------------------------------------------ key-value

template<size_t K, size_t V>
void kv_body(Ctx& c)
{
    using Key   = std::array<uint8_t, K>;
    using Value = std::array<uint8_t, V>;
    std::string                     path = c.dir() + "/kv";
    std::unique_ptr<RockDBWrapper>  db(new RockDBWrapper(path));
    std::map<Key, Value>            m;
    std::vector<Key>                pool;
    size_t                          np   = c.in(1, c.chance(1, 6) ? 80 : 8);
    bool                            near = c.flip();
    for (size_t i = 0; i < np; ++i) {
        Key k{};
        if (near) { // keys differing in one byte
            k[c.u(K - 1)] = static_cast<uint8_t>(c.edgy(0, 255));
        } else {
            std::string b = c.bytes(K);
            memcpy(k.data(), b.data(), K);
        }
        pool.push_back(k);
    }
    Key absent;
    absent.fill(0x77);
    pool.push_back(absent);
    auto check_key = [&](const Key& k, const char* when) {
        Value v;
        v.fill(0xCC);
        bool        ok;
        std::string s;
        switch (c.u(2)) {
        case 0: ok = db->get(k, v); break;
        case 1: ok = db->get(k.data(), K, v); break;
        default:
            ok = db->get(std::string(k.begin(), k.end()), s);
            if (ok) {
                PBT_ASSERT(c, s.size() == V, "%s: a value of %zu bytes came back with %zu", when, V, s.size());
                memcpy(v.data(), s.data(), V);
            }
        }
        auto it = m.find(k);
        PBT_ASSERT(c,
                   ok == (it != m.end()),
                   "%s: key %s %s",
                   when,
                   sse::utility::hex_string(k).c_str(),
                   ok ? "was found, it was never put or removed since" : "was not found");
        PBT_ASSERT(c,
                   !ok || v == it->second,
                   "%s: key %s has value %s instead of %s",
                   when,
                   sse::utility::hex_string(k).c_str(),
                   sse::utility::hex_string(v).c_str(),
                   it == m.end() ? "" : sse::utility::hex_string(it->second).c_str());
    };
    auto check_all = [&](const char* when) {
        for (auto& k : pool) {
            check_key(k, when);
        }
    };
    size_t steps = c.in(1, 80), puts = 0, overwrites = 0, removals = 0, reopens = 0;
    for (size_t s = 0; s < steps; ++s) {
        const Key& k = pool[c.u(pool.size() - 2 + (pool.size() == 1))];
        switch (c.weighted({8, 2, 1, 4, 1, 1})) {
        case 0: {
            Value v;
            if (c.chance(1, 4)) {
                v.fill(static_cast<uint8_t>(c.edgy(0, 255)));
            } else {
                std::string b = c.bytes(V);
                memcpy(v.data(), b.data(), V);
            }
            c.note("put(%s)", sse::utility::hex_string(k).c_str());
            PBT_ASSERT(c, db->put(k, v), "put failed");
            overwrites += m.count(k);
            m[k] = v;
            ++puts;
            break;
        }
        case 1:
            c.note("remove(%s) (array)", sse::utility::hex_string(k).c_str());
            PBT_ASSERT(c, db->remove(k), "remove failed");
            removals += m.erase(k);
            break;
        case 2:
            c.note("remove(%s) (pointer)", sse::utility::hex_string(k).c_str());
            PBT_ASSERT(c, db->remove(k.data(), K), "remove failed");
            removals += m.erase(k);
            break;
        case 3: check_key(k, "during the history"); break;
        case 4: {
            bool b = c.flip();
            c.note("flush(%d)", b);
            db->flush(b);
            break;
        }
        default:
            c.note("reopen");
            db.reset();
            db.reset(new RockDBWrapper(path));
            ++reopens;
            check_all("after reopening");
        }
    }
    check_all("at the end");
    c.note("close and reopen");
    db.reset();
    db.reset(new RockDBWrapper(path));
    check_all("after the last reopening");
    c.nontrivial(puts >= 3 && (overwrites || removals));
    c.label("key " + std::to_string(K) + " value " + std::to_string(V));
    c.label(reopens ? "reopened" : "not reopened");
}

// ----------------------------------------------------------------- list store

struct StringSer
{
    std::string serialize(const std::string& s)
    {
        uint32_t n = static_cast<uint32_t>(s.size());
        return std::string(reinterpret_cast<char*>(&n), 4) + s;
    }
    bool deserialize(std::string::iterator& b, const std::string::iterator& e, std::string& out)
    {
        if (std::distance(b, e) < 4) {
            return false;
        }
        uint32_t n;
        std::copy(b, b + 4, reinterpret_cast<char*>(&n));
        if (std::distance(b + 4, e) < static_cast<ptrdiff_t>(n)) {
            return false;
        }
        out.assign(b + 4, b + 4 + n);
        b += 4 + n;
        return true;
    }
};
// the mask is state of the serialiser: the one that was given must be used
struct MaskedSer
{
    uint64_t    mask{0};
    std::string serialize(const uint64_t& v)
    {
        uint64_t x = v ^ mask;
        return std::string(reinterpret_cast<const char*>(&x), 8);
    }
    bool deserialize(std::string::iterator& b, const std::string::iterator& e, uint64_t& out)
    {
        if (std::distance(b, e) < 8) {
            return false;
        }
        std::copy(b, b + 8, reinterpret_cast<char*>(&out));
        out ^= mask;
        b += 8;
        return true;
    }
};

template<class T, class Ser, size_t K, class Gen>
void list_body(Ctx& c, Ser ser, bool stateful, Gen gen)
{
    using Store = RockDBListStore<T, Ser>;
    using Key   = std::array<uint8_t, K>;
    std::string                   path = c.dir() + "/list";
    std::unique_ptr<Store>        db(new Store(path));
    std::map<Key, std::list<T>>   m;
    std::vector<Key>              pool;
    size_t                        np = c.in(1, 6);
    for (size_t i = 0; i < np; ++i) {
        Key k{};
        k[c.u(K - 1)] = static_cast<uint8_t>(c.edgy(0, 255));
        pool.push_back(k);
    }
    auto check_key = [&](const Key& k, const char* when) {
        std::list<T> out;
        if (c.flip()) {
            out.push_back(gen());
        }
        bool        ok;
        std::string sk(k.begin(), k.end());
        switch (c.u(2)) {
        case 0: ok = stateful ? db->get(k, out, ser) : db->get(k, out); break;
        case 1: ok = stateful ? db->get(sk, out, ser) : db->get(sk, out); break;
        default: ok = stateful ? db->get(k.data(), K, out, ser) : db->get(k.data(), K, out);
        }
        auto it = m.find(k);
        PBT_ASSERT(c,
                   ok == (it != m.end()),
                   "%s: key %s %s",
                   when,
                   sse::utility::hex_string(k).c_str(),
                   ok ? "was found, it was never put" : "was not found");
        if (ok) {
            PBT_ASSERT(c,
                       out == it->second,
                       "%s: the list of key %s has %zu elements, %zu were put (or they differ)",
                       when,
                       sse::utility::hex_string(k).c_str(),
                       out.size(),
                       it->second.size());
        }
    };
    size_t steps = c.in(1, 40), puts = 0, overwrites = 0, reopens = 0, big = 0;
    for (size_t s = 0; s < steps; ++s) {
        const Key& k = pool[c.u(pool.size() - 1)];
        switch (c.weighted({6, 5, 1, 1})) {
        case 0: {
            std::list<T> l;
            size_t       n = c.edgy(0, c.chance(1, 8) ? 300 : 8);
            for (size_t i = 0; i < n; ++i) {
                l.push_back(gen());
            }
            c.note("put(%s, %zu elements)", sse::utility::hex_string(k).c_str(), n);
            PBT_ASSERT(c, stateful ? db->put(k, l, ser) : db->put(k, l), "put failed");
            overwrites += m.count(k);
            big += n >= 2;
            m[k] = l;
            ++puts;
            break;
        }
        case 1: check_key(k, "during the history"); break;
        case 2: {
            bool b = c.flip();
            c.note("flush(%d)", b);
            db->flush(b);
            break;
        }
        default:
            c.note("reopen");
            db.reset();
            db.reset(new Store(path));
            ++reopens;
            for (auto& q : pool) {
                check_key(q, "after reopening");
            }
        }
    }
    c.note("close and reopen");
    for (auto& q : pool) {
        check_key(q, "at the end");
    }
    db.reset();
    db.reset(new Store(path));
    for (auto& q : pool) {
        check_key(q, "after the last reopening");
    }
    c.nontrivial(puts >= 2 && big >= 1);
    c.label(overwrites ? "overwrites" : "no overwrite");
    c.label(reopens ? "reopened" : "not reopened");
}

void list_any(Ctx& c)
{
    if (c.flip()) {
        MaskedSer s;
        s.mask = c.flip() ? c.seed64() : 0;
        list_body<uint64_t, MaskedSer, 16>(
            c, s, s.mask != 0, [&] { return c.edgy(0, UINT64_MAX); });
    } else {
        list_body<std::string, StringSer, 4>(
            c, StringSer(), c.flip(), [&] { return c.bytes(c.edgy(0, 50)); });
    }
}

// -------------------------------------------------------------------- crashes

// runs f in a child process; returns the wait status
template<class F>
int in_child(F f)
{
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) {
        throw std::runtime_error("fork failed");
    }
    if (p == 0) {
        f();
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
    return st;
}

kill_points::Shared* new_shared()
{
    void* p = mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        throw std::runtime_error("mmap failed");
    }
    return static_cast<kill_points::Shared*>(p);
}
struct SharedGuard
{
    kill_points::Shared* s{new_shared()};
    ~SharedGuard() { munmap(s, 1 << 20); }
    char* text() { return reinterpret_cast<char*>(s) + 4096; }
};

struct COp
{
    int         kind; // 0 incr 1 set 2 remove 3 flush 4 get_and_incr
    std::string key;
    uint32_t    val;
};

void do_op(CounterModel& m, const COp& o)
{
    auto it = m.find(o.key);
    switch (o.kind) {
    case 0: m[o.key] = it == m.end() ? o.val : it->second + 1; break;
    case 1: m[o.key] = o.val; break;
    case 2: m.erase(o.key); break;
    case 4: m[o.key] = it == m.end() ? 0 : it->second + 1; break;
    default: break;
    }
}

// Several lives of one store, each ended by a kill or a normal close
void counter_crash_body(Ctx& c)
{
    std::string              path = c.dir() + "/ctr";
    CounterModel             m;
    std::vector<std::string> pool;
    std::set<std::string>    keys;
    size_t                   np = c.in(1, 4);
    for (size_t i = 0; i < np; ++i) {
        pool.push_back(gen_key(c));
        keys.insert(pool.back());
    }
    size_t lives = c.in(1, 3), kills = 0, acked_total = 0;
    for (size_t l = 0; l < lives; ++l) {
        std::vector<COp> ops;
        size_t           n = c.in(1, 25);
        for (size_t i = 0; i < n; ++i) {
            COp o;
            o.kind = static_cast<int>(c.weighted({3, 3, 2, 1, 4}));
            o.key  = pool[c.u(pool.size() - 1)];
            o.val  = static_cast<uint32_t>(c.u(100000));
            ops.push_back(o);
        }
        SharedGuard g;
        bool        in_op  = c.chance(2, 3);
        uint64_t    at     = in_op ? 1 + c.u(n * 3) : 0;
        size_t      after  = in_op ? n : c.in(0, n); // kill between two operations
        bool        close_ = !in_op && c.chance(1, 4);
        bool        torn   = c.flip();
        c.note("life %zu: %zu operations, %s", l, n,
               in_op ? ("killed at storage call " + std::to_string(at) + (torn ? " (torn)" : "")).c_str()
               : close_ ? "closed"
                        : ("killed after operation " + std::to_string(after)).c_str());
        for (auto& o : ops) {
            static const char* nm[] = {"increment", "set", "remove", "flush", "get_and_increment"};
            c.note("  %s(%s, %u)", nm[o.kind], show(o.key).c_str(), o.val);
        }
        int st = in_child([&] {
            kill_points::shared = g.s;
            auto* db            = new RocksDBCounter(path);
            g.s->opened         = 1;
            kill_points::torn    = torn;
            kill_points::kill_at = at;
            kill_points::armed   = true;
            for (size_t i = 0; i < n; ++i) {
                if (i == after && !in_op && !close_) {
                    kill_points::die();
                }
                const COp& o  = ops[i];
                uint32_t   v  = 0;
                bool       ok = true;
                switch (o.kind) {
                case 0: ok = db->increment(o.key, o.val); break;
                case 1: ok = db->set(o.key, o.val); break;
                case 2: ok = db->remove_key(o.key); break;
                case 3: db->flush(true); break;
                default: ok = db->get_and_increment(o.key, v); break;
                }
                if (!ok) {
                    _exit(3);
                }
                g.s->acked++;
            }
            if (close_) {
                delete db;
            } else {
                kill_points::die();
            }
        });
        PBT_ASSERT(c, g.s->opened == 1, "the store could not be opened (life %zu, status %d)", l, st);
        PBT_ASSERT(c,
                   (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) || (WIFEXITED(st) && WEXITSTATUS(st) == 0),
                   "the writer ended with status %d",
                   st);
        kills += WIFSIGNALED(st);
        size_t acked = g.s->acked;
        acked_total += acked;
        // candidate states: all the acknowledged operations, or one more
        CounterModel a = m;
        for (size_t i = 0; i < acked; ++i) {
            do_op(a, ops[i]);
        }
        CounterModel b = a;
        if (acked < n) {
            do_op(b, ops[acked]);
        }
        SharedGuard r;
        int         st2 = in_child([&] {
            CounterModel got;
            try {
                RocksDBCounter db(path);
                for (auto& k : keys) {
                    uint32_t v;
                    if (db.get(k, v)) {
                        got[k] = v;
                    }
                }
            } catch (const std::exception& e) {
                snprintf(r.text(), 400, "%s", e.what());
                _exit(4);
            }
            r.s->finished = got == a ? 1 : got == b ? 2 : 3;
            std::string d;
            for (auto& k : keys) {
                auto f = [&](CounterModel& x) {
                    return x.count(k) ? std::to_string(x[k]) : std::string("-");
                };
                d += " " + show(k) + ": " + f(got) + " (expected " + f(a) + " or " + f(b) + ")";
            }
            snprintf(r.text(), 4000, "%s", d.c_str());
        });
        PBT_ASSERT(c,
                   WIFEXITED(st2) && WEXITSTATUS(st2) == 0,
                   "the store cannot be reopened after the crash: status %d %s",
                   st2,
                   r.text());
        PBT_ASSERT(c,
                   r.s->finished == 1 || r.s->finished == 2,
                   "life %zu, %zu acknowledged operations, recovered%s",
                   l,
                   acked,
                   r.text());
        m = r.s->finished == 1 ? a : b;
    }
    c.nontrivial(kills >= 1 && acked_total >= 3);
}

using KVKey   = std::array<uint8_t, 16>;
using KVModel = std::map<KVKey, uint64_t>;

void kv_crash_body(Ctx& c)
{
    std::string path = c.dir() + "/kv";
    KVModel     m;
    bool        list  = c.chance(1, 3);
    using LStore      = RockDBListStore<uint64_t, MaskedSer>;
    size_t np         = c.in(1, 5);
    auto   key        = [&](size_t i) {
        KVKey k{};
        k[i]  = static_cast<uint8_t>(i + 1);
        k[15] = 9;
        return k;
    };
    size_t lives = c.in(1, 3), kills = 0, acked_total = 0;
    c.note("%s", list ? "list store" : "key-value store");
    struct Op
    {
        int      kind; // 0 put 1 remove 2 flush
        size_t   key;
        uint64_t val;
    };
    auto apply_kv = [&](KVModel& x, const Op& o) {
        if (o.kind == 0) {
            x[key(o.key)] = o.val;
        } else if (o.kind == 1) {
            x.erase(key(o.key));
        }
    };
    // the list of value v: v, v+1, ... (v % 5 elements)
    auto list_of = [](uint64_t v) {
        std::list<uint64_t> l{v};
        for (uint64_t i = 0; i < v % 5; ++i) {
            l.push_back(v + i);
        }
        return l;
    };
    for (size_t l = 0; l < lives; ++l) {
        std::vector<Op> ops;
        size_t          n = c.in(1, 25);
        for (size_t i = 0; i < n; ++i) {
            Op o;
            o.kind = static_cast<int>(c.weighted({6, list ? 0u : 2u, 1}));
            o.key  = c.u(np - 1);
            o.val  = 1 + c.u(1000000);
            ops.push_back(o);
            static const char* nm[] = {"put", "remove", "flush"};
            c.note("  %s(%zu, %" PRIu64 ")", nm[o.kind], o.key, o.val);
        }
        SharedGuard g;
        bool        in_op  = c.chance(2, 3);
        uint64_t    at     = in_op ? 1 + c.u(n * 3) : 0;
        size_t      after  = in_op ? n : c.in(0, n);
        bool        close_ = !in_op && c.chance(1, 4);
        bool        torn   = c.flip();
        c.note("life %zu: %zu operations, %s", l, n,
               in_op ? ("killed at storage call " + std::to_string(at) + (torn ? " (torn)" : "")).c_str()
               : close_ ? "closed"
                        : ("killed after operation " + std::to_string(after)).c_str());
        int st = in_child([&] {
            kill_points::shared  = g.s;
            RockDBWrapper* kv    = list ? nullptr : new RockDBWrapper(path);
            LStore*        ls    = list ? new LStore(path) : nullptr;
            g.s->opened          = 1;
            kill_points::torn    = torn;
            kill_points::kill_at = at;
            kill_points::armed   = true;
            for (size_t i = 0; i < n; ++i) {
                if (i == after && !in_op && !close_) {
                    kill_points::die();
                }
                const Op& o  = ops[i];
                bool      ok = true;
                if (o.kind == 0) {
                    ok = list ? ls->put(key(o.key), list_of(o.val)) : kv->put(key(o.key), o.val);
                } else if (o.kind == 1) {
                    ok = kv->remove(key(o.key));
                } else if (list) {
                    ls->flush(true);
                } else {
                    kv->flush(true);
                }
                if (!ok) {
                    _exit(3);
                }
                g.s->acked++;
            }
            if (close_) {
                delete kv;
                delete ls;
            } else {
                kill_points::die();
            }
        });
        PBT_ASSERT(c, g.s->opened == 1, "the store could not be opened (life %zu, status %d)", l, st);
        PBT_ASSERT(c,
                   (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) || (WIFEXITED(st) && WEXITSTATUS(st) == 0),
                   "the writer ended with status %d",
                   st);
        kills += WIFSIGNALED(st);
        size_t acked = g.s->acked;
        acked_total += acked;
        KVModel a = m;
        for (size_t i = 0; i < acked; ++i) {
            apply_kv(a, ops[i]);
        }
        KVModel b = a;
        if (acked < n) {
            apply_kv(b, ops[acked]);
        }
        SharedGuard r;
        int         st2 = in_child([&] {
            KVModel got;
            try {
                if (list) {
                    LStore db(path);
                    for (size_t i = 0; i < np; ++i) {
                        std::list<uint64_t> o;
                        if (db.get(key(i), o)) {
                            got[key(i)] = o.empty() ? 0 : o.front();
                            if (o.empty() || o != list_of(o.front())) {
                                got[key(i)] = 0;
                            }
                        }
                    }
                } else {
                    RockDBWrapper db(path);
                    for (size_t i = 0; i < np; ++i) {
                        uint64_t v;
                        if (db.get(key(i), v)) {
                            got[key(i)] = v;
                        }
                    }
                }
            } catch (const std::exception& e) {
                snprintf(r.text(), 400, "%s", e.what());
                _exit(4);
            }
            r.s->finished = got == a ? 1 : got == b ? 2 : 3;
            std::string d;
            for (size_t i = 0; i < np; ++i) {
                auto f = [&](KVModel& x) {
                    return x.count(key(i)) ? std::to_string(x[key(i)]) : std::string("-");
                };
                d += " key " + std::to_string(i) + ": " + f(got) + " (expected " + f(a) + " or " + f(b) + ")";
            }
            snprintf(r.text(), 4000, "%s", d.c_str());
        });
        PBT_ASSERT(c,
                   WIFEXITED(st2) && WEXITSTATUS(st2) == 0,
                   "the store cannot be reopened after the crash: status %d %s",
                   st2,
                   r.text());
        PBT_ASSERT(c,
                   r.s->finished == 1 || r.s->finished == 2,
                   "life %zu, %zu acknowledged operations, recovered%s",
                   l,
                   acked,
                   r.text());
        m = r.s->finished == 1 ? a : b;
    }
    c.nontrivial(kills >= 1 && acked_total >= 3);
}

// a vector killed while it is written, or after its commit
struct alignas(4096) VPage
{
    std::array<uint64_t, 512> w;
};
VPage vpage(uint64_t id)
{
    VPage p;
    for (size_t i = 0; i < 512; ++i) {
        p.w[i] = id * 1000 + i;
    }
    return p;
}
void vec_crash_body(Ctx& c)
{
    using Vec        = sse::abstractio::awonvm_vector<VPage, 4096>;
    std::string path = c.dir() + "/vec";
    size_t      n = c.in(1, 12);
    bool        async = c.flip(), reserve = c.chance(1, 3), commit = c.chance(2, 3);
    unsigned    kind  = static_cast<unsigned>(c.u(1));
    bool        in_op = c.chance(2, 3);
    uint64_t    at    = in_op ? 1 + c.u(n + 3) : 0;
    size_t      extra = c.u(5);
    size_t      after = c.in(0, n);
    bool        by_op = !in_op && c.flip();
    bool        end_close = !in_op && c.chance(1, 3);
    c.note("%zu %s appends%s%s%s", n, async ? "asynchronous" : "synchronous", reserve ? ", reserved space" : "",
           commit ? ", commit" : "",
           in_op ? (", killed at storage call " + std::to_string(at)).c_str()
           : by_op ? (", killed after " + std::to_string(after) + " appends").c_str()
           : end_close ? ", destroyed"
                       : ", killed at the end");
    SharedGuard g;
    int         st = in_child([&] {
        kill_points::shared = g.s;
        std::unique_ptr<sse::abstractio::Scheduler> s(
            kind ? sse::abstractio::make_thread_pool_aio_scheduler()
                 : sse::abstractio::make_linux_aio_scheduler(4096, 16));
        auto* v              = new Vec(path, std::move(s), false);
        kill_points::kill_at = at;
        kill_points::armed   = true;
        if (reserve) {
            v->reserve(n + extra);
        }
        for (size_t i = 0; i < n; ++i) {
            if (by_op && i == after) {
                kill_points::die();
            }
            VPage p = vpage(i + 1);
            if (async) {
                v->async_push_back(p);
            } else {
                v->push_back(p);
            }
            g.s->acked++;
        }
        if (commit) {
            v->commit();
            g.s->finished = 1;
        }
        if (end_close) {
            delete v;
            g.s->finished = 1;
        } else {
            kill_points::die();
        }
    });
    PBT_ASSERT(c,
               (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) || (WIFEXITED(st) && WEXITSTATUS(st) == 0),
               "the writer ended with status %d",
               st);
    bool   done  = g.s->finished;
    size_t acked = g.s->acked;
    Vec    v(path, nullptr, false);
    if (done) {
        PBT_ASSERT(c, v.size() == n, "the committed vector had %zu pages, it reopens with %zu", n, v.size());
    } else {
        PBT_ASSERT(c,
                   v.size() <= std::max(reserve ? n + extra : 0, std::min(n, acked + 1)),
                   "the killed vector had at most %zu pages, it reopens with %zu",
                   acked + 1,
                   v.size());
        if (!async) {
            PBT_ASSERT(c,
                       v.size() >= acked,
                       "%zu pages had been written, the vector reopens with %zu",
                       acked,
                       v.size());
        }
    }
    static const VPage zero{};
    size_t             good = 0;
    for (size_t i = 0; i < v.size(); ++i) {
        VPage p  = v.get(i);
        bool  ok = i < n && p.w == vpage(i + 1).w;
        good += ok;
        PBT_ASSERT(c,
                   ok || (!done && (async || i >= acked) && p.w == zero.w),
                   "position %zu holds another page after the crash (%s, %zu acknowledged)",
                   i,
                   done ? "committed" : "not committed",
                   acked);
    }
    c.nontrivial(n >= 3 && good >= 1);
    c.label(done ? "committed" : "not committed");
}

} // namespace

int main(int argc, char** argv)
{
    if (!getenv("PBT_LOG")) std::cerr.rdbuf(nullptr);
    if (!getenv("PBT_LOG")) std::cout.rdbuf(nullptr);
    if (!getenv("PBT_LOG")) sse::logger::set_logging_level(spdlog::level::off);
    std::vector<pbt::Check> ck;
    auto add = [&](const char* p, const char* n, const char* rule, std::function<void(Ctx&)> f, size_t q,
                   size_t t) {
        pbt::Check k;
        k.property       = p;
        k.name           = n;
        k.rule           = rule;
        k.body           = f;
        k.quick_cases    = q;
        k.thorough_cases = t;
        k.needs_dir      = true;
        k.case_timeout_s = 60;
        ck.push_back(k);
    };
    add("C08", "counter",
        "random histories of increments, sets, removals, reads, flushes and reopenings over related keys; "
        "non-trivial: >=3 writes, one of them incrementing an existing key",
        counter_body, 4000, 100000);
    add("C08", "counter_concurrent",
        "2 to 5 threads that increment (in both ways), read and set at once over 1 to 3 shared counters; non-trivial: more than "
        "10 increments",
        counter_concurrent_body, 2000, 60000);
    ck.back().scheduled = true;
    // one value size per check, hence per process: RocksDB's cuckoo tables mishandle
    // deletions when one process writes tables of several value sizes
    const char* kv_rule = "random histories of puts, removals, reads (three interfaces), flushes and "
                          "reopenings; non-trivial: >=3 puts and an overwrite or a removal";
    add("C09", "key_value_16_8", kv_rule, kv_body<16, 8>, 1500, 30000);
    add("C09", "key_value_16_16", kv_rule, kv_body<16, 16>, 700, 15000);
    add("C09", "key_value_4_4", kv_rule, kv_body<4, 4>, 700, 15000);
    add("C09", "key_value_32_336", kv_rule, kv_body<32, 336>, 700, 15000);
    add("C09", "list",
        "random histories of list puts and reads (three interfaces, two serialisers, stateful or not), flushes "
        "and reopenings; non-trivial: >=2 puts, one of several elements",
        list_any, 2500, 60000);
    add("C10", "counter_crash",
        "1..3 lives of a counter store, killed at a storage system call (possibly torn), between operations, or "
        "closed; non-trivial: a kill and >=3 acknowledged operations",
        counter_crash_body, 1500, 40000);
    add("C10", "store_crash",
        "the same for the key-value and list stores; non-trivial: a kill and >=3 acknowledged operations",
        kv_crash_body, 1500, 40000);
    add("C10", "vector_crash",
        "a vector written synchronously or not, killed at a storage call, between appends or after commit; "
        "non-trivial: >=3 appends, a page recovered",
        vec_crash_body, 4000, 100000);
    return pbt::Engine(argc, argv, ck).run();
}
