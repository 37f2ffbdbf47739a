// C16: the thread pool runs every accepted task exactly once
#include "pbt.hpp"
#define CHAOS_WRAP
#include "chaos.hpp"

#include <sse/schemes/utils/thread_pool.hpp>

#include <iostream>

using pbt::Ctx;

namespace {

struct TaskDesc
{
    int      kind;  // 0 value, 1 throw, 2 sleep, 3 nested enqueue, 4 yield, 5 reference argument
    uint64_t arg;
};

struct Rec
{
    std::atomic<int> runs{0};
    std::atomic<int> finished{0};
};

struct Shared
{
    std::atomic<int> cur{0}, peak{0};
    std::atomic<uint64_t> nested_ok{0}, nested_refused{0}, nested_runs{0};
};

uint64_t f(uint64_t x) { return x * 0x9E3779B97F4A7C15ULL + 1; }

struct Boom : std::runtime_error
{
    uint64_t v;
    explicit Boom(uint64_t x) : std::runtime_error("boom"), v(x) {}
};

struct Enter
{
    Shared& s;
    explicit Enter(Shared& s_) : s(s_)
    {
        int c = ++s.cur;
        int p = s.peak;
        while (c > p && !s.peak.compare_exchange_weak(p, c)) {
        }
    }
    ~Enter() { --s.cur; }
};

uint64_t run_task(ThreadPool& pool, Shared& s, Rec& r, const TaskDesc& d)
{
    Enter e(s);
    r.runs++;
    uint64_t res = f(d.arg);
    switch (d.kind) {
    case 1: r.finished++; throw Boom(d.arg);
    case 2: usleep(static_cast<useconds_t>(d.arg % 300)); break;
    case 3:
        try {
            pool.enqueue([&s] {
                Enter en(s);
                s.nested_runs++;
            });
            s.nested_ok++;
        } catch (const std::runtime_error&) {
            s.nested_refused++;
        }
        break;
    case 4: sched_yield(); break;
    default: break;
    }
    r.finished++;
    return res;
}

struct Issued
{
    size_t                task;
    std::future<uint64_t> fut;
    bool                  refused{false};
};

void pool_body(Ctx& c)
{
    uint32_t n     = static_cast<uint32_t>(c.chance(1, 20) ? c.edgy(1, 50) : c.edgy(1, 6));
    size_t   prods = c.u(3);
    uint32_t level = static_cast<uint32_t>(c.u(2));
    uint64_t cs    = c.seed64();
    bool     early = c.chance(1, 4); // join while the producers are at work
    bool     joins = c.flip();       // join() before the destructor
    bool     wait_idle = c.chance(1, 3);
    c.note("pool of %u threads, %zu producers, chaos %u%s%s", n, prods, level, early ? ", early join" : "",
           joins ? ", explicit join" : "");
    std::vector<std::vector<TaskDesc>> plan(prods + 1);
    size_t                             total = 0;
    for (auto& p : plan) {
        size_t k = c.edgy(0, 12);
        for (size_t i = 0; i < k; ++i) {
            p.push_back({static_cast<int>(c.weighted({4, 2, 1, 2, 1})), c.u(1000)});
            c.note("  task kind %d arg %" PRIu64, p.back().kind, p.back().arg);
        }
        total += k;
    }
    std::vector<Rec>                 recs(total);
    Shared                           sh;
    std::vector<std::vector<Issued>> issued(prods + 1);
    chaos::start(cs, level);
    std::atomic<bool> joined{false};
    std::string       err;
    {
        ThreadPool pool(n);
        auto       produce = [&](size_t who, size_t base) {
            for (size_t i = 0; i < plan[who].size(); ++i) {
                Issued          is;
                const TaskDesc& d = plan[who][i];
                Rec&            r = recs[base + i];
                is.task           = base + i;
                bool was_joined   = joined;
                try {
                    if (d.arg % 2) {
                        is.fut = pool.enqueue(
                            [&pool, &sh, &r](TaskDesc td, uint64_t plus) {
                                return run_task(pool, sh, r, td) + plus;
                            },
                            d,
                            uint64_t{0});
                    } else {
                        is.fut = pool.enqueue([&pool, &sh, &r, d] { return run_task(pool, sh, r, d); });
                    }
                    if (was_joined) {
                        err = "a task was accepted after the pool was joined";
                    }
                } catch (const std::runtime_error&) {
                    is.refused = true;
                }
                issued[who].push_back(std::move(is));
            }
        };
        std::vector<std::thread> ts;
        size_t                   base = plan[0].size();
        for (size_t w = 1; w <= prods; ++w) {
            ts.emplace_back(produce, w, base);
            base += plan[w].size();
        }
        if (wait_idle) {
            usleep(300);
        }
        produce(0, 0);
        if (!early) {
            for (auto& t : ts) {
                t.join();
            }
        }
        if (early || joins) {
            pool.join();
            joined = true;
            // everything accepted before the join is finished now
            for (auto& is : issued[0]) {
                PBT_ASSERT(c,
                           is.refused || recs[is.task].finished == 1,
                           "join() returned before task %zu was finished",
                           is.task);
            }
            bool threw = false;
            try {
                pool.enqueue([] {});
            } catch (const std::runtime_error&) {
                threw = true;
            }
            PBT_ASSERT(c, threw, "enqueue() after join() was accepted");
            if (early) {
                for (auto& t : ts) {
                    t.join();
                }
            }
            pool.join(); // a second join is harmless
        }
    }
    chaos::stop();
    PBT_ASSERT(c, err.empty(), "%s", err.c_str());
    size_t refused = 0, thrown = 0;
    for (size_t w = 0; w <= prods; ++w) {
        for (size_t i = 0; i < issued[w].size(); ++i) {
            auto& is = issued[w][i];
            auto& d  = plan[w][i];
            if (is.refused) {
                ++refused;
                PBT_ASSERT(c, early, "task %zu was refused by a running pool", is.task);
                PBT_ASSERT(c, recs[is.task].runs == 0, "refused task %zu was run", is.task);
                continue;
            }
            PBT_ASSERT(c,
                       recs[is.task].runs == 1,
                       "task %zu was run %d times",
                       is.task,
                       recs[is.task].runs.load());
            PBT_ASSERT(c,
                       is.fut.valid()
                           && is.fut.wait_for(std::chrono::seconds(0)) == std::future_status::ready,
                       "the pool is gone but the future of task %zu is not ready",
                       is.task);
            try {
                uint64_t v = is.fut.get();
                PBT_ASSERT(c, d.kind != 1, "task %zu threw, its future has a value", is.task);
                PBT_ASSERT(c, v == f(d.arg), "task %zu: wrong value in the future", is.task);
            } catch (const Boom& b) {
                ++thrown;
                PBT_ASSERT(c,
                           d.kind == 1 && b.v == d.arg,
                           "task %zu: unexpected exception in the future",
                           is.task);
            }
        }
    }
    PBT_ASSERT(c,
               sh.nested_runs == sh.nested_ok,
               "%" PRIu64 " nested tasks were accepted, %" PRIu64 " were run",
               sh.nested_ok.load(),
               sh.nested_runs.load());
    PBT_ASSERT(c,
               sh.peak <= static_cast<int>(n),
               "%d tasks ran at once in a pool of %u threads",
               sh.peak.load(),
               n);
    PBT_ASSERT(c, sh.cur == 0, "a task is still running");
    c.nontrivial(total >= 3 && (prods > 0 || n > 1));
    c.label(refused ? "some refused" : "none refused");
    c.label(thrown ? "some thrown" : "none thrown");
    c.label(sh.nested_ok ? "nested" : "no nested");
}

// n tasks that wait for one another need the n threads of the pool
void barrier_body(Ctx& c)
{
    uint32_t n      = static_cast<uint32_t>(c.chance(1, 12) ? c.edgy(1, c.chance(1, 6) ? 300 : 70) : c.in(1, 6));
    size_t   rounds = c.in(1, n > 10 ? 2 : 4);
    uint32_t level  = static_cast<uint32_t>(c.u(2));
    uint64_t cs     = c.seed64();
    size_t   before = c.u(4);
    bool     idle   = c.flip();
    bool     several = c.flip() && n > 1; // from several threads
    c.note("pool of %u threads, %zu rounds, chaos %u", n, rounds, level);
    chaos::start(cs, level);
    {
        ThreadPool pool(n);
        for (size_t i = 0; i < before; ++i) {
            pool.enqueue([] { sched_yield(); });
        }
        if (idle) {
            usleep(500);
        }
        for (size_t r = 0; r < rounds; ++r) {
            std::mutex                     m;
            std::condition_variable        cv;
            uint32_t                       in = 0;
            std::vector<std::future<void>> fs(n);
            auto                           put = [&](uint32_t i) {
                fs[i] = pool.enqueue([&] {
                    std::unique_lock<std::mutex> l(m);
                    ++in;
                    cv.notify_all();
                    cv.wait(l, [&] { return in >= n; });
                });
            };
            if (several) {
                std::vector<std::thread> ts;
                for (uint32_t i = 0; i < n; ++i) {
                    ts.emplace_back(put, i);
                }
                for (auto& t : ts) {
                    t.join();
                }
            } else {
                for (uint32_t i = 0; i < n; ++i) {
                    put(i);
                }
            }
            for (auto& x : fs) {
                x.get();
            }
        }
    }
    chaos::stop();
    c.nontrivial(n > 1);
}

} // namespace

int main(int argc, char** argv)
{
    std::cout.rdbuf(nullptr);
    std::vector<pbt::Check> checks(2);
    checks[0].property       = "C16";
    checks[0].name           = "tasks";
    checks[0].rule           = "random pools (1..6 threads, sometimes 50), up to 4 enqueuing threads, tasks that return, "
                     "throw, sleep or enqueue, joins racing with enqueues, random delays around "
                     "locks; non-trivial: >=3 tasks and real concurrency";
    checks[0].body           = pool_body;
    checks[0].quick_cases    = 40000;
    checks[0].thorough_cases = 800000;
    checks[0].scheduled      = true;
    checks[0].case_timeout_s = 25;
    checks[1].property       = "C16";
    checks[1].name           = "barrier";
    checks[1].rule           = "rounds of as many mutually waiting tasks as the pool has threads (up to 300), enqueued by one "
                     "or several threads; non-trivial: more than one thread";
    checks[1].body           = barrier_body;
    checks[1].quick_cases    = 15000;
    checks[1].thorough_cases = 300000;
    checks[1].scheduled      = true;
    checks[1].case_timeout_s = 25;
#if defined(__SANITIZE_THREAD__)
    for (auto& k : checks) {
        k.name += "_tsan";
        k.quick_cases /= 10;
        k.thorough_cases /= 10;
    }
#endif
    return pbt::Engine(argc, argv, checks).run();
}
