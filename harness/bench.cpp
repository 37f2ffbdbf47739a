// C25: benchmarks leave one faithful record each; loggers can be changed at will
#include "pbt.hpp"

#include <sse/schemes/utils/logger.hpp>

#include <spdlog/sinks/ostream_sink.h>

#include <fcntl.h>
#include <spawn.h>
#include <sys/wait.h>

#include <atomic>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <thread>

using pbt::Ctx;
using namespace sse;
using Clock = std::chrono::high_resolution_clock;

namespace {

double ms(Clock::duration d)
{
    return std::chrono::duration<double, std::milli>(d).count();
}

struct Expected
{
    std::string message;
    size_t      count = 0;
    double      lo = 0, hi = 0; // bounds on the time, in milliseconds
    bool        search = false;
};

// a benchmark, used in one of the ways its interface allows
struct Live
{
    std::unique_ptr<Benchmark> b;
    Clock::time_point          before, after; // around the construction
    Expected                   e;
    bool                       stopped = false;
};

std::vector<std::string> read_lines(const std::string& p)
{
    std::ifstream            f(p);
    std::vector<std::string> v;
    std::string              s;
    while (std::getline(f, s)) {
        v.push_back(s);
    }
    return v;
}

// the records are written in the background
std::vector<std::string> wait_lines(const std::string& p, size_t n)
{
    std::vector<std::string> v;
    for (int i = 0; i < 2000; ++i) {
        if (auto l = spdlog::get("benchmark")) {
            l->flush();
        }
        v = read_lines(p);
        if (v.size() >= n) {
            break;
        }
        std::this_thread::sleep_for(std::chrono::milliseconds(i < 20 ? 1 : 5));
    }
    return v;
}

void spin(Ctx& c)
{
    auto   t0 = Clock::now();
    double d  = static_cast<double>(c.u(3)) * 0.3;
    while (ms(Clock::now() - t0) < d) {
    }
}

void bench_body(Ctx& c)
{
    struct File
    {
        std::string           path;
        std::vector<Expected> want;
    };
    std::vector<File> files;
    size_t            serial = 0, n_stop = 0;
    auto              open = [&]() {
        files.push_back({c.dir() + "/bench" + std::to_string(files.size()), {}});
        Benchmark::set_benchmark_file(files.back().path);
    };
    open();
    std::vector<Live> live;
    auto              create = [&]() {
        Live l;
        l.e.search  = c.flip();
        l.e.message = "bench " + std::to_string(serial++);
        static const char kChars[] = "abz09 _-:;,.()[]<>=+*/#@!?|~^&%$";
        for (size_t i = c.u(12); i > 0; --i) {
            l.e.message += kChars[c.u(sizeof(kChars) - 2)];
        }
        l.before = Clock::now();
        if (l.e.search) {
            l.b = std::make_unique<SearchBenchmark>(l.e.message);
        } else {
            l.b = std::make_unique<Benchmark>("M=" + l.e.message + "|N={0}|T={1}|I={2}");
        }
        l.after = Clock::now();
        live.push_back(std::move(l));
    };
    auto destroy = [&](size_t i) {
        Live l = std::move(live[i]);
        live.erase(live.begin() + static_cast<long>(i));
        auto t0 = Clock::now();
        l.b.reset();
        auto t1 = Clock::now();
        if (!l.stopped) {
            l.e.lo = ms(t0 - l.after);
            l.e.hi = ms(t1 - l.before);
        }
        files.back().want.push_back(l.e);
    };
    size_t ops = 2 + c.u(25);
    for (size_t i = 0; i < ops; ++i) {
        switch (c.weighted({6, 3, 3, 3, 5, 1})) {
        case 0: create(); break;
        case 1:
        case 2: {
            if (live.empty()) {
                break;
            }
            auto& l = live[c.u(live.size() - 1)];
            if (l.stopped) {
                break;
            }
            bool   with = c.flip();
            size_t n    = c.edgy(0, ~0ULL);
            auto   t0   = Clock::now();
            if (with) {
                l.b->stop(n);
                l.e.count = n;
            } else {
                l.b->stop();
            }
            auto t1   = Clock::now();
            l.e.lo    = ms(t0 - l.after);
            l.e.hi    = ms(t1 - l.before);
            l.stopped = true;
            ++n_stop;
            spin(c);
            break;
        }
        case 3:
            if (!live.empty()) {
                auto& l   = live[c.u(live.size() - 1)];
                l.e.count = c.edgy(0, 1000000);
                l.b->set_count(l.e.count);
            }
            break;
        case 4:
            if (!live.empty()) {
                spin(c);
                destroy(c.u(live.size() - 1));
            }
            break;
        default:
            if (c.chance(1, 2) && files.size() < 4) {
                open();
            }
        }
    }
    while (!live.empty()) {
        destroy(live.size() - 1);
    }
    size_t total = 0;
    for (size_t fi = 0; fi < files.size(); ++fi) {
        const auto& f     = files[fi];
        auto        lines = wait_lines(f.path, f.want.size());
        PBT_ASSERT(c, lines.size() == f.want.size(), "%zu records in benchmark file %zu instead of %zu", lines.size(), fi,
                   f.want.size());
        for (size_t i = 0; i < lines.size(); ++i) {
            const auto& e = f.want[i];
            const auto& s = lines[i];
            size_t      b = s.find("] ");
            PBT_ASSERT(c, b != std::string::npos, "record without a date: %s", s.c_str());
            std::string r     = s.substr(b + 2);
            long double t = -1, per = -1;
            unsigned long long n = 0;
            bool        ok = false;
            std::string head = e.search ? "{ \"message\" : \"" + e.message + "\", \"items\" : " : "M=" + e.message + "|N=";
            if (r.compare(0, head.size(), head) == 0) {
                const char* fmt = e.search ? "%llu, \"time\" : %Lf, \"time/item\" : %Lf }%n" : "%llu|T=%Lf|I=%Lf%n";
                int         len = -1;
                const char* p   = r.c_str() + head.size();
                ok              = sscanf(p, fmt, &n, &t, &per, &len) == 3 && len == static_cast<int>(strlen(p));
            }
            PBT_ASSERT(c, ok, "malformed record for \"%s\": %s", e.message.c_str(), s.c_str());
            PBT_ASSERT(c, n == e.count, "a benchmark of %zu items is recorded with %llu", e.count, n);
            PBT_ASSERT(c, t >= e.lo - 1e-6 && t <= e.hi + 1e-6,
                       "a benchmark that lasted between %.6f and %.6f ms is recorded as %.6Lf ms%s", e.lo, e.hi, t,
                       t > e.hi ? " (after its end)" : "");
            long double want = n > 1 ? t / static_cast<long double>(n) : t;
            PBT_ASSERT(c, fabsl(per - want) <= 1e-9L + 1e-6L * want, "%.12Lf ms per item for %llu items in %.9Lf ms", per, n, t);
            ++total;
        }
    }
    c.note("%zu benchmarks, %zu stopped explicitly, %zu files", total, n_stop, files.size());
    c.label("records", total);
    c.label("stopped before their end", n_stop);
    c.nontrivial(total >= 2);
}

// messages reach the logger that was chosen last, if they are important enough
void logger_body(Ctx& c)
{
    struct Sink
    {
        std::ostringstream out;
        std::shared_ptr<spdlog::logger> l;
    };
    std::vector<std::unique_ptr<Sink>> sinks;
    long                               cur = -2; // -1: the null logger, -2: none yet
    std::vector<std::string>           want;
    std::vector<int>                   level;
    size_t                             n = 1 + c.u(12), sent = 0, nulls = 0;
    for (size_t i = 0; i < n || cur < 0; ++i) {
        size_t op = i == 0 || i > 60 ? 0 : c.weighted({2, 2, 2, 8});
        switch (op) {
        case 0: {
            bool again = !sinks.empty() && c.flip();
            if (!again) {
                sinks.push_back(std::make_unique<Sink>());
                auto s      = std::make_shared<spdlog::sinks::ostream_sink_mt>(sinks.back()->out);
                sinks.back()->l = std::make_shared<spdlog::logger>("sink" + std::to_string(c.u(2)), s);
                sinks.back()->l->set_pattern("%v");
                sinks.back()->l->set_level(spdlog::level::info);
                want.emplace_back();
                level.push_back(spdlog::level::info);
            }
            cur = again ? static_cast<long>(c.u(sinks.size() - 1)) : static_cast<long>(sinks.size()) - 1;
            logger::set_logger(sinks[static_cast<size_t>(cur)]->l);
            break;
        }
        case 1:
            logger::set_logger(nullptr);
            cur = -1;
            ++nulls;
            break;
        case 2: {
            auto l = c.u(6);
            logger::set_logging_level(static_cast<spdlog::level::level_enum>(l));
            if (cur >= 0) {
                level[static_cast<size_t>(cur)] = static_cast<int>(l);
            }
            break;
        }
        default: {
            // any text, not a format
            std::string m = "m" + std::to_string(sent++) + (c.chance(1, 4) ? " {} {0} {x" : " %s %n");
            int         l = static_cast<int>(c.u(5));
            logger::logger()->log(static_cast<spdlog::level::level_enum>(l), m);
            if (cur >= 0 && l >= level[static_cast<size_t>(cur)]) {
                want[static_cast<size_t>(cur)] += m + "\n";
            }
        }
        }
    }
    for (size_t i = 0; i < sinks.size(); ++i) {
        sinks[i]->l->flush();
        PBT_ASSERT(c, sinks[i]->out.str() == want[i], "logger #%zu received \"%s\" instead of \"%s\"", i,
                   sinks[i]->out.str().c_str(), want[i].c_str());
    }
    c.note("%zu loggers, %zu messages, %zu times the null logger", sinks.size(), sent, nulls);
    logger::set_logger(nullptr);
    c.nontrivial(sent >= 1);
}

// a process whose first use of the logger is made by several threads at once
int first_use_main(int n_threads, int n_messages)
{
    std::atomic<int>         ready{0};
    std::vector<std::thread> threads;
    for (int t = 0; t < n_threads; ++t) {
        threads.emplace_back([&, t]() {
            ++ready;
            while (ready.load() < n_threads) {
            }
            for (int i = 0; i < n_messages; ++i) {
                logger::logger()->error("thread {} message {} end", t, i);
                logger::logger()->trace("thread {} trace {} end", t, i);
            }
        });
    }
    for (auto& t : threads) {
        t.join();
    }
    logger::logger()->flush();
    return 0;
}

void first_use_body(Ctx& c)
{
    int         n_threads = static_cast<int>(1 + c.u(7)), n_messages = static_cast<int>(1 + c.u(3));
    std::string out       = c.dir() + "/stderr";
    std::string a = std::to_string(n_threads), b = std::to_string(n_messages);
    char        arg0[] = "bench", arg1[] = "--first-use";
    char*       argv[] = {arg0, arg1, &a[0], &b[0], nullptr};
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 2, out.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
    pid_t pid = 0;
    int   rc  = posix_spawn(&pid, "/proc/self/exe", &fa, nullptr, argv, environ);
    posix_spawn_file_actions_destroy(&fa);
    if (rc != 0) {
        c.discard();
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
    }
    auto lines = read_lines(out);
    PBT_ASSERT(c, WIFEXITED(status) && WEXITSTATUS(status) == 0,
               "%d threads that use the default logger for the first time at once end the process (status %#x): %s",
               n_threads, static_cast<unsigned>(status), lines.empty() ? "" : lines.back().c_str());
    std::map<std::pair<int, int>, int> seen;
    for (const auto& l : lines) {
        auto p = l.find("thread ");
        int  t = -1, i = -1, len = -1;
        PBT_ASSERT(c,
                   p != std::string::npos && sscanf(l.c_str() + p, "thread %d message %d end%n", &t, &i, &len) == 2 && len > 0,
                   "unexpected log line: %s", l.c_str());
        seen[{t, i}]++;
    }
    for (int t = 0; t < n_threads; ++t) {
        for (int i = 0; i < n_messages; ++i) {
            int k = seen[{t, i}];
            PBT_ASSERT(c, k == 1, "message %d of thread %d was logged %d times", i, t, k);
        }
    }
    PBT_ASSERT(c, seen.size() == static_cast<size_t>(n_threads * n_messages), "messages out of nowhere");
    c.note("%d threads, %d messages", n_threads, n_messages);
    c.nontrivial(n_threads >= 2);
}

} // namespace

int main(int argc, char** argv)
{
    if (argc == 4 && strcmp(argv[1], "--first-use") == 0) {
        return first_use_main(atoi(argv[2]), atoi(argv[3]));
    }
    std::vector<pbt::Check> checks(3);
    checks[0].property       = "C25";
    checks[0].name           = "records";
    checks[0].rule           = "random sequences of benchmarks created, counted, stopped (or not) and destroyed, with several "
                     "files; the record of each is read back; non-trivial: at least two records";
    checks[0].body           = bench_body;
    checks[0].quick_cases    = 6000;
    checks[0].thorough_cases = 200000;
    checks[0].needs_dir      = true;
    checks[1].property       = "C25";
    checks[1].name           = "loggers";
    checks[1].rule           = "random sequences of loggers (the null one included), levels and messages; non-trivial: a message";
    checks[1].body           = logger_body;
    checks[1].quick_cases    = 30000;
    checks[1].thorough_cases = 1000000;
    checks[2].property       = "C25";
    checks[2].name           = "first_use";
    checks[2].rule           = "a fresh process in which 1 to 8 threads use the default logger for the first time at once: every "
                     "message appears exactly once; non-trivial: several threads";
    checks[2].body           = first_use_body;
    checks[2].quick_cases    = 3000;
    checks[2].thorough_cases = 60000;
    checks[2].needs_dir      = true;
    checks[2].scheduled      = true;
    return pbt::Engine(argc, argv, checks).run();
}
