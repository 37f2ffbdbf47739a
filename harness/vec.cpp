// C06: the on-disk vector returns what was appended, at the right position
#include "pbt.hpp"
#define CHAOS_WRAP
#include "chaos.hpp"
#include "fakeaio.hpp"

#include <sse/schemes/abstractio/awonvm_vector.hpp>

#include <deque>
#include <iostream>
#include <thread>

using pbt::Ctx;
using namespace sse::abstractio;

namespace {

template<size_t N, size_t ALIGN>
struct alignas(ALIGN) Page
{
    std::array<uint8_t, N> b;
    static Page make(uint64_t id)
    {
        Page     p;
        uint64_t s = id * 0x9E3779B97F4A7C15ULL + 7;
        for (size_t i = 0; i + 8 <= N; i += 8) {
            uint64_t v = (i / 8) % 8 == 0 ? pbt::splitmix(s) : s + i;
            memcpy(&p.b[i], &v, 8);
        }
        memcpy(&p.b[0], &id, 8);
        return p;
    }
    bool operator==(const Page& o) const { return b == o.b; }
    uint64_t id() const
    {
        uint64_t v;
        memcpy(&v, &b[0], 8);
        return v;
    }
};

bool direct_ok(const std::string& dir)
{
    static int ok = -1;
    if (ok < 0) {
        std::string p  = dir + "/probe";
        int         fd = open(p.c_str(), O_CREAT | O_RDWR | O_DIRECT, 0600);
        ok             = fd >= 0;
        if (fd >= 0) {
            close(fd);
        }
        unlink(p.c_str());
    }
    return ok == 1;
}

enum Sched
{
    Linux,
    Pool,
    Null,
    Default
};

struct Got
{
    std::atomic<int> calls{0};
    std::atomic<int> state{0}; // 1 right value, 2 wrong value, 3 no value
    uint64_t         id{0};
};

template<class E, class F>
void expect_throw(Ctx& c, const char* what, F f)
{
    bool ok = false;
    try {
        f();
    } catch (const E&) {
        ok = true;
    }
    PBT_ASSERT(c, ok, "%s was not refused with an exception", what);
}

template<size_t N, size_t ALIGN>
struct Runner
{
    using P   = Page<N, ALIGN>;
    using Vec = awonvm_vector<P, ALIGN>;

    Ctx&                              c;
    Sched                             kind;
    bool                              direct;
    bool                              can_direct;
    bool                              async_ok; // asynchronous operations are usable
    std::string                       path;
    std::unique_ptr<Vec>              v;
    std::vector<uint64_t>             model;
    bool                              committed{false};
    size_t                            reserved{0};
    uint64_t                          next_id{1};
    std::vector<std::unique_ptr<Got>> pending;
    std::vector<std::pair<Got*, size_t>> expect; // request -> position
    size_t n_reads{0}, n_async{0}, n_reopen{0}, n_moves{0}, n_switch{0};

    Runner(Ctx& ctx) : c(ctx)
    {
        kind       = static_cast<Sched>(c.weighted({3, 3, 1, 2}));
        can_direct = ALIGN % 4096 == 0 && direct_ok(c.dir());
        direct     = can_direct && c.flip();
        async_ok   = kind == Pool || (kind != Null && ALIGN % 4096 == 0);
        path       = c.dir() + "/vec";
        next_id    = 1 + c.u(1000) * 1000;
    }

    std::unique_ptr<Scheduler> sched()
    {
        switch (kind) {
        case Linux:
            return std::unique_ptr<Scheduler>(
                make_linux_aio_scheduler(4096, static_cast<unsigned>(c.in(1, 128))));
        case Pool: return std::unique_ptr<Scheduler>(make_thread_pool_aio_scheduler());
        default: return nullptr;
        }
    }
    void open()
    {
        if (kind == Default) {
            v.reset(new Vec(path, direct));
        } else {
            v.reset(new Vec(path, sched(), direct));
        }
    }
    void check_state()
    {
        PBT_ASSERT(c,
                   v->size() == model.size(),
                   "size() is %zu after %zu appends",
                   v->size(),
                   model.size());
        PBT_ASSERT(c,
                   v->is_committed() == committed,
                   "is_committed() is %d, expected %d",
                   v->is_committed(),
                   committed);
        PBT_ASSERT(c, v->use_direct_access() == direct, "use_direct_access() is wrong");
    }
    void read(size_t i)
    {
        P p = v->get(i);
        PBT_ASSERT(c,
                   p == P::make(model[i]),
                   "get(%zu) returned page %" PRIu64 " instead of page %" PRIu64,
                   i,
                   p.id(),
                   model[i]);
        ++n_reads;
    }
    typename Vec::get_callback_type cb(Got* g, size_t i)
    {
        uint64_t id = model[i];
        return [g, id](std::unique_ptr<P> p) {
            if (!p) {
                g->state = 3;
            } else {
                g->id    = p->id();
                g->state = *p == P::make(id) ? 1 : 2;
            }
            g->calls++;
        };
    }
    Got* request(size_t i)
    {
        pending.emplace_back(new Got);
        expect.push_back({pending.back().get(), i});
        ++n_async;
        return pending.back().get();
    }
    // waits for the callbacks asked so far
    void settle(bool must_be_done, const char* when)
    {
        double t0 = pbt::now_s();
        for (auto& e : expect) {
            while (!must_be_done && e.first->calls == 0 && pbt::now_s() - t0 < 20) {
                usleep(20);
            }
        }
        check_calls(when);
    }
    void check_calls(const char* when)
    {
        for (auto& e : expect) {
            Got* g = e.first;
            PBT_ASSERT(c,
                       g->calls == 1,
                       "the asynchronous read of position %zu called back %d times (%s)",
                       e.second,
                       g->calls.load(),
                       when);
            PBT_ASSERT(c,
                       g->state == 1,
                       "the asynchronous read of position %zu gave %s (page %" PRIu64
                       " instead of %" PRIu64 ")",
                       e.second,
                       g->state == 3 ? "nothing" : "another page",
                       g->id,
                       model[e.second]);
        }
    }
    void append(bool async)
    {
        P      p = P::make(next_id);
        size_t pos;
        try {
            pos = async ? v->async_push_back(p) : v->push_back(p);
        } catch (const std::exception& e) {
            c.fail("an append was refused: %s", e.what());
        }
        PBT_ASSERT(c,
                   pos == model.size(),
                   "append number %zu returned position %zu",
                   model.size(),
                   pos);
        model.push_back(next_id++);
    }
    void past_end()
    {
        size_t off[] = {model.size(), model.size() + 1, model.size() + 1000};
        size_t i     = off[c.u(2)];
        switch (c.u(async_ok ? 2 : 0)) {
        case 0:
            c.note("get(%zu) past the end", i);
            expect_throw<std::exception>(c, "get() past the end", [&] { (void)v->get(i); });
            break;
        case 1: {
            c.note("async_get(%zu) past the end", i);
            expect_throw<std::exception>(
                c, "async_get() past the end", [&] { v->async_get(i, [](std::unique_ptr<P>) {}); });
            break;
        }
        default: {
            c.note("async_gets with %zu past the end", i);
            std::vector<typename Vec::GetRequest> rq;
            rq.emplace_back(i, [](std::unique_ptr<P>) {});
            expect_throw<std::exception>(c, "async_gets() past the end", [&] { v->async_gets(rq); });
        }
        }
    }
    void toggle_direct()
    {
        direct = !direct;
        c.note("set_use_direct_access(%d)", direct);
        v->set_use_direct_access(direct);
        ++n_switch;
        settle(true, "after set_use_direct_access()");
    }
    void move_it()
    {
        c.note("move construction");
        std::unique_ptr<Vec> w(new Vec(std::move(*v)));
        bool                 early = c.flip();
        if (early) {
            v.reset(); // the moved-from vector goes first
        }
        std::swap(v, w);
        ++n_moves;
        check_state();
        if (!early) {
            w.reset();
        }
        PBT_ASSERT(c,
                   fcntl(0, F_GETFD) != -1,
                   "destroying a moved-from vector closed the standard input");
        check_state();
    }
    void reopen()
    {
        c.note("close and reopen");
        v.reset();
        check_calls("after the destruction of the vector");
        committed = !model.empty() || (committed && false);
        if (can_direct && c.chance(1, 3)) {
            direct = !direct;
        }
        if (c.chance(1, 3)) {
            kind     = static_cast<Sched>(c.weighted({3, 3, 1, 2}));
            async_ok = kind == Pool || (kind != Null && ALIGN % 4096 == 0);
        }
        open();
        ++n_reopen;
        reserved = 0;
        check_state();
    }
    // more elements than small integers count
    void run_many(size_t n)
    {
        c.note("%zu pages of %zu bytes aligned on %zu, scheduler %d, direct %d", n, N, ALIGN, kind, direct);
        open();
        size_t asyncs = async_ok ? (n > 2000 ? 20000 / n : c.edgy(0, 10)) : 0; // out of 10
        if (c.chance(1, 4)) {
            v->reserve(n - n / 3 + c.u(n / 2));
        }
        uint64_t s = c.seed64();
        for (size_t i = 0; i < n; ++i) {
            append(pbt::splitmix(s) % 10 < asyncs);
        }
        check_state();
        bool again = c.flip();
        for (int r = 0; r <= (again ? 1 : 0); ++r) {
            if (r == 0) {
                v->commit();
                committed = true;
            } else {
                reopen();
            }
            check_state();
            for (size_t i = 0; i < n; ++i) {
                read(i);
            }
            if (async_ok) {
                for (int b = 0; b < 3; ++b) {
                    std::vector<typename Vec::GetRequest> rq;
                    size_t                                m = c.edgy(1, 600);
                    for (size_t k = 0; k < m; ++k) {
                        size_t i = pbt::splitmix(s) % n;
                        rq.emplace_back(i, cb(request(i), i));
                    }
                    v->async_gets(rq);
                    for (size_t i : {size_t(255), size_t(256), n - 1, n / 2}) {
                        if (i < n) {
                            v->async_get(i, cb(request(i), i));
                        }
                    }
                }
                settle(false, "after the reads");
            }
            past_end();
        }
        v.reset();
        check_calls("after the end");
        c.label(n > 65536 ? "over 65536" : "under 65536");
        c.nontrivial(true);
    }
    void run()
    {
        c.note("pages of %zu bytes aligned on %zu, scheduler %d, direct %d", N, ALIGN, kind, direct);
        open();
        check_state();
        size_t steps = c.in(3, 40);
        for (size_t s = 0; s < steps; ++s) {
            if (!committed) {
                switch (c.weighted({6, 4, 1, 1, 1, 1, 2, 1})) {
                case 0: {
                    size_t n = c.edgy(1, 4);
                    c.note("push_back x%zu", n);
                    for (size_t i = 0; i < n; ++i) {
                        append(false);
                    }
                    break;
                }
                case 1: {
                    if (!async_ok) {
                        if (kind == Null) {
                            expect_throw<std::exception>(
                                c, "async_push_back() without a scheduler", [&] {
                                    v->async_push_back(P::make(1));
                                });
                        }
                        break;
                    }
                    size_t n = c.edgy(1, 4);
                    c.note("async_push_back x%zu", n);
                    for (size_t i = 0; i < n; ++i) {
                        append(true);
                    }
                    break;
                }
                case 2: {
                    size_t n = c.u(20);
                    c.note("reserve(%zu)", n);
                    v->reserve(n);
                    if (n > model.size()) {
                        reserved = n;
                    }
                    break;
                }
                case 3:
                    if (can_direct) {
                        toggle_direct();
                    }
                    break;
                case 4:
                    c.note("reads before the commit");
                    expect_throw<std::exception>(
                        c, "get() before the commit", [&] { (void)v->get(0); });
                    expect_throw<std::exception>(c, "async_get() before the commit", [&] {
                        v->async_get(0, [](std::unique_ptr<P>) {});
                    });
                    expect_throw<std::exception>(c, "async_gets() before the commit", [&] {
                        v->async_gets({typename Vec::GetRequest(0, [](std::unique_ptr<P>) {})});
                    });
                    break;
                case 5: move_it(); break;
                case 6:
                    c.note("commit");
                    v->commit();
                    committed = true;
                    break;
                default: reopen(); break;
                }
            } else {
                switch (c.weighted({5, 5, 4, 1, 1, 1, 1, 2, 1})) {
                case 0: {
                    if (model.empty()) {
                        break;
                    }
                    size_t i = c.edgy(0, model.size() - 1);
                    c.note("get(%zu)", i);
                    read(i);
                    break;
                }
                case 1: {
                    if (model.empty()) {
                        break;
                    }
                    size_t i = c.edgy(0, model.size() - 1);
                    if (!async_ok) {
                        if (kind == Null) {
                            expect_throw<std::exception>(c, "async_get() without a scheduler", [&] {
                                v->async_get(i, [](std::unique_ptr<P>) {});
                            });
                        }
                        break;
                    }
                    c.note("async_get(%zu)", i);
                    v->async_get(i, cb(request(i), i));
                    break;
                }
                case 2: {
                    if (model.empty() || !async_ok) {
                        break;
                    }
                    size_t n = c.edgy(0, 6);
                    std::vector<typename Vec::GetRequest> rq;
                    std::string l;
                    for (size_t k = 0; k < n; ++k) {
                        size_t i = c.edgy(0, model.size() - 1);
                        l += " " + std::to_string(i);
                        rq.emplace_back(i, cb(request(i), i));
                    }
                    c.note("async_gets(%s)", l.c_str());
                    v->async_gets(rq);
                    break;
                }
                case 3: past_end(); break;
                case 4:
                    c.note("appends after the commit");
                    expect_throw<std::exception>(
                        c, "push_back() after the commit", [&] { v->push_back(P::make(9)); });
                    expect_throw<std::exception>(
                        c, "async_push_back() after the commit", [&] {
                            v->async_push_back(P::make(9));
                        });
                    break;
                case 5:
                    if (can_direct) {
                        toggle_direct();
                    }
                    break;
                case 6: move_it(); break;
                case 7: reopen(); break;
                default:
                    c.note("second commit, reserve");
                    v->commit();
                    v->reserve(model.size() + 5);
                    break;
                }
            }
            check_state();
        }
        if (committed) {
            settle(false, "at the end");
        }
        reopen();
        if (committed) {
            for (size_t i = 0; i < model.size(); ++i) {
                read(i);
            }
            past_end();
        }
        settle(false, "at the end");
        v.reset();
        check_calls("after the end");
        c.nontrivial(model.size() >= 3 && n_reads >= 2);
        c.label("scheduler " + std::to_string(kind));
        c.label(can_direct ? "direct possible" : "direct impossible");
        c.label(reserved ? "reserved" : "not reserved");
        if (n_async) {
            c.label("async reads");
        }
        if (n_moves) {
            c.label("moves");
        }
        if (n_switch) {
            c.label("switches");
        }
    }
};

void history_body(Ctx& c)
{
    fakeaio::Config cfg;
    cfg.fake    = !c.chance(1, 6);
    cfg.reorder = c.flip();
    cfg.partial = c.chance(1, 4) ? 100 : 0;
    cfg.eagain  = c.chance(1, 4) ? 60 : 0;
    fakeaio::kernel().start(cfg, c.seed64());
    switch (c.weighted({4, 2, 2, 2, 1})) {
    case 0: Runner<4096, 4096>(c).run(); break;
    case 1: Runner<8192, 4096>(c).run(); break;
    case 2: Runner<512, 512>(c).run(); break;
    case 3: Runner<64, 8>(c).run(); break;
    default: Runner<16384, 8192>(c).run(); break;
    }
}

void many_body(Ctx& c)
{
    fakeaio::Config cfg;
    cfg.fake    = !c.chance(1, 6);
    cfg.reorder = c.flip();
    fakeaio::kernel().start(cfg, c.seed64());
    switch (c.weighted({8, 4, 2, 2})) {
    case 0: Runner<4096, 4096>(c).run_many(c.edgy(250, 600)); break;
    case 1: Runner<64, 8>(c).run_many(c.edgy(250, 1500)); break;
    case 2: Runner<512, 512>(c).run_many(c.edgy(65500, 66000)); break;
    default: Runner<64, 8>(c).run_many(c.edgy(65500, 70000)); break;
    }
}

// a vector much larger than the memory: its file is sparse, with known pages at chosen positions
template<size_t N, size_t ALIGN>
void sparse_run(Ctx& c)
{
    using P          = Page<N, ALIGN>;
    using Vec        = awonvm_vector<P, ALIGN>;
    std::string path = c.dir() + "/sparse";
    // sizes around the limits of the 31 and 32 bits integers, in bytes and in pages of 4096 bytes
    size_t bytes = size_t(1) << c.in(20, 36);
    size_t count = bytes / N + c.u(3);
    std::map<size_t, uint64_t> model;
    size_t                     n  = c.in(2, 12);
    uint64_t                   id = 1 + c.u(1000);
    auto                       at = [&](size_t byte) {
        size_t p = byte / N + c.u(4);
        p        = p > 2 ? p - 2 : p;
        return p < count ? p : c.u(count - 1);
    };
    for (size_t i = 0; i < n; ++i) {
        size_t pos = c.flip() ? at(size_t(1) << c.in(12, 36)) : c.edgy(0, count - 1);
        model[pos] = id++;
    }
    model[count - 1] = id++;
    {
        int fd = open(path.c_str(), O_CREAT | O_RDWR, 0600);
        if (fd < 0 || ftruncate(fd, static_cast<off_t>(count * N)) != 0) {
            if (fd >= 0) {
                close(fd);
            }
            c.discard();
        }
        for (auto& e : model) {
            P p = P::make(e.second);
            if (pwrite(fd, &p, N, static_cast<off_t>(e.first * N)) != static_cast<ssize_t>(N)) {
                close(fd);
                c.discard();
            }
        }
        close(fd);
    }
    bool lin    = ALIGN % 4096 == 0 && c.flip();
    bool direct = ALIGN % 4096 == 0 && direct_ok(c.dir()) && c.flip();
    c.note("%zu pages of %zu bytes, %zu of them written, direct %d", count, N, model.size(), direct);
    Vec v(path,
          std::unique_ptr<Scheduler>(lin ? make_linux_aio_scheduler(4096, 16)
                                         : make_thread_pool_aio_scheduler()),
          direct);
    PBT_ASSERT(c, v.size() == count, "size() is %zu for %zu pages", v.size(), count);
    std::deque<Got>                            got;
    std::vector<typename Vec::GetRequest>      rq;
    std::vector<std::pair<Got*, size_t>>       expect;
    for (auto& e : model) {
        auto cb = [&](size_t pos, uint64_t want) {
            got.emplace_back();
            Got* g = &got.back();
            expect.push_back({g, pos});
            return [g, want](std::unique_ptr<P> p) {
                g->state = !p ? 3 : *p == P::make(want) ? 1 : 2;
                g->id    = p ? p->id() : 0;
                g->calls++;
            };
        };
        P p = v.get(e.first);
        PBT_ASSERT(c,
                   p == P::make(e.second),
                   "get(%zu) returned page %" PRIu64 " instead of page %" PRIu64,
                   e.first,
                   p.id(),
                   e.second);
        v.async_get(e.first, cb(e.first, e.second));
        rq.emplace_back(e.first, cb(e.first, e.second));
    }
    v.async_gets(rq);
    double t0 = pbt::now_s();
    for (auto& e : expect) {
        while (e.first->calls == 0 && pbt::now_s() - t0 < 20) {
            usleep(20);
        }
        PBT_ASSERT(c,
                   e.first->calls == 1 && e.first->state == 1,
                   "the asynchronous read of position %zu called back %d times and gave %s (page "
                   "%" PRIu64 " instead of %" PRIu64 ")",
                   e.second,
                   e.first->calls.load(),
                   e.first->state == 3 ? "nothing" : "a page",
                   e.first->id,
                   model[e.second]);
    }
    expect_throw<std::exception>(c, "get() past the end", [&] { (void)v.get(count); });
    c.nontrivial(count * N > (size_t(1) << 31));
    c.label(count * N > (size_t(1) << 32) ? "over 4 GB" : "under 4 GB");
}

void sparse_body(Ctx& c)
{
    fakeaio::Config cfg;
    cfg.fake = c.flip();
    fakeaio::kernel().start(cfg, c.seed64());
    switch (c.weighted({4, 2, 2})) {
    case 0: sparse_run<4096, 4096>(c); break;
    case 1: sparse_run<512, 512>(c); break;
    default: sparse_run<16384, 8192>(c); break;
    }
}

// several threads append at once: the position returned to each is where its page is
void concurrent_body(Ctx& c)
{
    fakeaio::Config cfg;
    cfg.fake = true;
    fakeaio::kernel().start(cfg, c.seed64());
    using P       = Page<4096, 4096>;
    using Vec     = awonvm_vector<P, 4096>;
    size_t   nthr = c.in(2, 4);
    unsigned lvl  = static_cast<unsigned>(c.u(2));
    bool     lin  = c.flip();
    std::string path = c.dir() + "/cvec";
    std::vector<std::vector<int>>                          plan(nthr);
    std::vector<std::vector<std::pair<size_t, uint64_t>>> got(nthr);
    size_t                                                 total = 0;
    for (size_t t = 0; t < nthr; ++t) {
        size_t n = c.in(1, 10);
        for (size_t i = 0; i < n; ++i) {
            plan[t].push_back(static_cast<int>(c.u(1)));
        }
        total += n;
        c.note("thread %zu: %zu appends", t, n);
    }
    chaos::start(c.seed64(), lvl);
    auto mk = [&] {
        return std::unique_ptr<Scheduler>(lin ? make_linux_aio_scheduler(4096, 4)
                                              : make_thread_pool_aio_scheduler());
    };
    {
        Vec                      v(path, mk(), false);
        std::vector<std::thread> ts;
        std::atomic<int>         ready{0};
        for (size_t t = 0; t < nthr; ++t) {
            ts.emplace_back([&, t] {
                ready++;
                while (ready < static_cast<int>(nthr)) {
                    sched_yield();
                }
                for (size_t i = 0; i < plan[t].size(); ++i) {
                    uint64_t id = (t + 1) * 1000 + i;
                    P        p  = P::make(id);
                    size_t   pos = plan[t][i] ? v.async_push_back(p) : v.push_back(p);
                    got[t].push_back({pos, id});
                }
            });
        }
        for (auto& t : ts) {
            t.join();
        }
        v.commit();
        PBT_ASSERT(c, v.size() == total, "%zu appends, size %zu", total, v.size());
    }
    chaos::stop();
    Vec              v(path, mk(), false);
    std::set<size_t> seen;
    PBT_ASSERT(c, v.size() == total, "%zu appends, size %zu after reopening", total, v.size());
    for (auto& g : got) {
        for (auto& e : g) {
            PBT_ASSERT(c, seen.insert(e.first).second, "position %zu was given twice", e.first);
            PBT_ASSERT(c, e.first < total, "position %zu out of %zu", e.first, total);
            P p = v.get(e.first);
            PBT_ASSERT(c,
                       p == P::make(e.second),
                       "position %zu was returned for page %" PRIu64 ", it holds page %" PRIu64,
                       e.first,
                       e.second,
                       p.id());
        }
    }
    c.nontrivial(total >= 4);
}

// appends past the limits of the 31 and 32 bits integers: huge elements, of which only the ends are stored
struct alignas(4096) Huge
{
    static constexpr size_t kSize = size_t(48) << 20;
    uint8_t                 b[kSize];
};

void large_append_body(Ctx& c)
{
    fakeaio::Kernel& k = fakeaio::kernel();
    fakeaio::Config  cfg;
    cfg.fake   = true;
    cfg.sparse = true;
    k.start(cfg, c.seed64());
    using Vec        = awonvm_vector<Huge, 4096>;
    std::string path = c.dir() + "/hvec";
    bool        lin  = c.flip();
    auto        mk   = [&] {
        return std::unique_ptr<Scheduler>(lin ? make_linux_aio_scheduler(4096, 4) : make_thread_pool_aio_scheduler());
    };
    void* mem = nullptr;
    if (posix_memalign(&mem, 4096, sizeof(Huge)) != 0) {
        c.discard();
    }
    std::unique_ptr<void, void (*)(void*)> guard(mem, free);
    Huge*                                  h = static_cast<Huge*>(mem);
    size_t n = c.in(1, 120), n_async = 0, reserved = 0;
    c.note("%zu elements of 48 MB", n);
    {
        Vec v(path, mk(), false);
        if (c.chance(1, 3)) {
            reserved = c.u(150);
            v.reserve(reserved);
            c.note("reserve(%zu)", reserved);
        }
        for (size_t i = 0; i < n; ++i) {
            uint64_t id = 7000 + i;
            memcpy(h->b, &id, 8);
            memcpy(h->b + Huge::kSize - 8, &id, 8);
            bool   async = n_async < 4 && c.chance(1, 12);
            size_t pos;
            if (async) {
                ++n_async;
                pos = v.async_push_back(*h);
            } else {
                pos = v.push_back(*h);
            }
            PBT_ASSERT(c, pos == i, "element %zu was appended at position %zu", i, pos);
        }
        v.commit();
        PBT_ASSERT(c, v.size() == n, "%zu appends, size %zu", n, v.size());
    }
    {
        Vec v(path, mk(), false);
        PBT_ASSERT(c, v.size() == n, "%zu appends (%zu positions reserved), size %zu after reopening", n, reserved, v.size());
    }
    int fd = open(path.c_str(), O_RDONLY);
    for (size_t i = 0; i < n; ++i) {
        for (size_t at : {size_t(0), Huge::kSize - 8}) {
            uint64_t id = 0;
            bool     ok = __real_pread(fd, &id, 8, static_cast<off_t>(i * Huge::kSize + at)) == 8 && id == 7000 + i;
            if (!ok) {
                close(fd);
            }
            PBT_ASSERT(c, ok, "position %zu of %zu holds element %" PRIu64 " instead of %zu (at byte %zu)", i, n, id - 7000, i, at);
        }
    }
    close(fd);
    c.label("asynchronous", n_async);
    c.nontrivial(n * Huge::kSize > (size_t(1) << 31));
}

// reads of a committed vector on a failing device or a refusing kernel
void faults_body(Ctx& c)
{
    fakeaio::Kernel& k = fakeaio::kernel();
    fakeaio::Config  cfg;
    cfg.fake = true;
    k.start(cfg, c.seed64());
    using P   = Page<4096, 4096>;
    using Vec = awonvm_vector<P, 4096>;
    bool        lin  = !c.chance(1, 3);
    std::string path = c.dir() + "/fvec";
    size_t      n    = c.in(1, 12);
    std::vector<std::unique_ptr<Got>> got;
    size_t                            refused = 0, asked = 0, null_results = 0;
    auto mk = [&] {
        return std::unique_ptr<Scheduler>(lin ? make_linux_aio_scheduler(
                                              4096, static_cast<unsigned>(c.edgy(1, 16)))
                                              : make_thread_pool_aio_scheduler());
    };
    {
        Vec v(path, mk(), false);
        for (size_t i = 0; i < n; ++i) {
            v.push_back(P::make(i + 1));
        }
        v.commit();
        auto p = [&] { return c.flip() ? static_cast<unsigned>(c.in(1, 200)) : 0U; };
        cfg.eagain   = p();
        cfg.partial  = p();
        cfg.refuse   = p();
        cfg.eintr    = p();
        cfg.spurious = p();
        cfg.io_err   = p();
        cfg.io_short = p();
        cfg.reorder  = c.flip();
        cfg.delay_us = c.chance(1, 4) ? static_cast<unsigned>(c.u(100)) : 0;
        c.note("%zu pages, %s scheduler; faults out of 256: eagain %u, partial %u, refuse %u, eintr %u, "
               "spurious %u, error %u, short %u",
               n, lin ? "linux" : "thread pool", cfg.eagain, cfg.partial, cfg.refuse, cfg.eintr,
               cfg.spurious, cfg.io_err, cfg.io_short);
        k.start(cfg, c.seed64());
        size_t steps = c.in(1, 12);
        auto   cb    = [&](size_t i) {
            got.emplace_back(new Got);
            Got* g = got.back().get();
            g->id  = i + 1;
            return [g, i](std::unique_ptr<P> p2) {
                g->state = !p2 ? 3 : *p2 == P::make(i + 1) ? 1 : 2;
                g->calls++;
            };
        };
        for (size_t s = 0; s < steps; ++s) {
            size_t first = got.size();
            bool   threw = false;
            bool   batch = c.flip();
            size_t m     = 1;
            if (batch) {
                m = c.edgy(1, 10);
                std::vector<typename Vec::GetRequest> rq;
                std::string                           l;
                for (size_t j = 0; j < m; ++j) {
                    size_t i = c.u(n - 1);
                    l += " " + std::to_string(i);
                    rq.emplace_back(i, cb(i));
                }
                c.note("async_gets(%s)", l.c_str());
                try {
                    v.async_gets(rq);
                } catch (const std::runtime_error&) {
                    threw = true;
                }
            } else {
                size_t i = c.u(n - 1);
                c.note("async_get(%zu)", i);
                try {
                    v.async_get(i, cb(i));
                } catch (const std::runtime_error&) {
                    threw = true;
                }
            }
            asked += m;
            if (threw) {
                PBT_ASSERT(c, cfg.refuse != 0 && lin, "a read was refused while no device refused it");
                ++refused;
                for (size_t j = first; j < got.size(); ++j) {
                    if (!batch) {
                        got[j]->id = 0; // must not call back
                    }
                    got[j]->id |= 1ULL << 40; // may or may not be in flight
                }
            }
        }
    }
    for (size_t j = 0; j < got.size(); ++j) {
        Got* g   = got[j].get();
        bool opt = g->id >> 40;
        PBT_ASSERT(c,
                   opt ? g->calls <= 1 : g->calls == 1,
                   "read number %zu called back %d times",
                   j,
                   g->calls.load());
        PBT_ASSERT(c, g->id != 1ULL << 40 || g->calls == 0, "a refused read called back");
        PBT_ASSERT(c, g->state != 2, "read number %zu gave another page", j);
        null_results += g->state == 3;
    }
    PBT_ASSERT(c,
               null_results == k.n_io_err + k.n_short,
               "%zu reads gave no value, %" PRIu64 " transfers failed",
               null_results,
               k.n_io_err + k.n_short);
    c.nontrivial(asked >= 3 && (refused || null_results || k.n_eagain || k.n_partial || k.n_eintr));
    c.label(refused ? "refused" : "none refused");
    c.label(null_results ? "failed transfers" : "no failed transfer");
}

} // namespace

#if defined(__SANITIZE_ADDRESS__)
#define SUFFIX "_asan"
#else
#define SUFFIX ""
#endif

int main(int argc, char** argv)
{
    std::cerr.rdbuf(nullptr);
    std::cout.rdbuf(nullptr);
    sse::logger::set_logging_level(spdlog::level::off);
    std::vector<pbt::Check> checks(4);
    checks[0].property       = "C06";
    checks[0].name           = "history" SUFFIX;
    checks[0].rule           = "random histories of appends, asynchronous appends, reserves, commits, reads, "
                     "batched reads, direct-I/O switches, moves and reopenings over five page geometries "
                     "and four scheduler choices; non-trivial: >=3 pages appended and >=2 read back";
    checks[0].body           = history_body;
    checks[0].quick_cases    = 6000;
    checks[0].thorough_cases = 500000;
    checks[0].needs_dir      = true;
    checks[0].case_timeout_s = 30;
    checks[1].property       = "C06";
    checks[1].name           = "concurrent" SUFFIX;
    checks[1].rule           = "2..4 threads appending at once with random delays; non-trivial: >=4 pages";
    checks[1].body           = concurrent_body;
    checks[1].quick_cases    = 4000;
    checks[1].thorough_cases = 80000;
    checks[1].needs_dir      = true;
    checks[1].scheduled      = true;
    checks[1].case_timeout_s = 30;
    checks[2].property       = "C06";
    checks[2].name           = "faults" SUFFIX;
    checks[2].rule           = "single and batched asynchronous reads of a committed vector while the kernel "
                     "refuses, defers, splits, interrupts and fails; non-trivial: >=3 reads and a fault";
    checks[2].body           = faults_body;
    checks[2].quick_cases    = 6000;
    checks[2].thorough_cases = 200000;
    checks[2].needs_dir      = true;
    checks[2].scheduled      = true;
    checks[2].case_timeout_s = 30;
    checks[3].property       = "C06";
    checks[3].name           = "sparse" SUFFIX;
    checks[3].rule           = "reads in files of 1 MB to 64 GB with known pages at chosen positions; "
                     "non-trivial: more than 2 GB";
    checks[3].body           = sparse_body;
    checks[3].quick_cases    = 1500;
    checks[3].thorough_cases = 100000;
    checks[3].needs_dir      = true;
    checks[3].case_timeout_s = 30;
    pbt::Check many;
    many.property       = "C06";
    many.name           = "many" SUFFIX;
    many.rule           = "vectors of 250 to 70000 elements appended in both ways and read in the three ways; all non-trivial";
    many.body           = many_body;
    many.quick_cases    = 600;
    many.thorough_cases = 30000;
    many.needs_dir      = true;
    many.case_timeout_s = 60;
#if !defined(__SANITIZE_ADDRESS__)
    checks.emplace_back();
    checks[4].property       = "C06";
    checks[4].name           = "large_append";
    checks[4].rule           = "1 to 120 elements of 48 MB appended in both ways (the middle of the elements does not reach the "
                     "file); non-trivial: more than 2 GB";
    checks[4].body           = large_append_body;
    checks[4].quick_cases    = 120;
    checks[4].thorough_cases = 4000;
    checks[4].needs_dir      = true;
    checks[4].workers        = 4;
    checks[4].case_timeout_s = 60;
#endif
    checks.push_back(many);
#if defined(__SANITIZE_ADDRESS__)
    checks.back().quick_cases    = 60;
    checks.back().thorough_cases = 3000;
    checks.erase(checks.begin(), checks.begin() + 2);
    checks[0].quick_cases    = 4000;
    checks[0].thorough_cases = 50000;
#endif
    return pbt::Engine(argc, argv, checks).run();
}
