// Small property-based-testing engine used by every harness in /verif.
//
// A case is a pure function of a sequence of integer choices.  Random search
// draws the choices from a PRNG seeded with (VERIF_SEED, worker, case number);
// shrinking edits the recorded sequence (delete / zero / lower) and re-runs the
// case; a replay file is the shrunk sequence.  Each case runs in a forked worker
// so that crashes, aborts and hangs are failures like any other.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>

#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:malloc_context_size=5";
}
#endif
#if defined(__SANITIZE_THREAD__)
extern "C" const char* __tsan_default_options()
{
    return "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0:"
           "die_after_fork=0";
}
#endif

namespace pbt {

using Clock = std::chrono::steady_clock;
inline double now_s()
{
    return std::chrono::duration<double>(Clock::now().time_since_epoch()).count();
}

struct Failure : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
struct Discard
{
};

inline uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z          = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t s = a * 0x9E3779B97F4A7C15ULL + b;
    splitmix(s);
    return splitmix(s);
}

constexpr size_t kMaxChoices = 1u << 20;
constexpr size_t kNotes      = 1u << 16;
constexpr size_t kMsg        = 4096;

// shared between the parent and one worker: survives the worker's death
struct Slot
{
    std::atomic<uint64_t> case_no;   // current case (1-based), 0 before the first
    std::atomic<uint64_t> case_seed;
    std::atomic<int64_t>  started_ms; // steady clock, 0 when idle
    std::atomic<uint64_t> n_choices;
    std::atomic<uint64_t> evaluations;
    std::atomic<uint64_t> discarded;
    std::atomic<int>      failed; // 1: oracle failure recorded in msg
    char                  msg[kMsg];
    std::atomic<uint64_t> notes_len;
    char                  notes[kNotes];
    uint64_t              choices[kMaxChoices];
};

class Ctx
{
public:
    Ctx(Slot* slot, uint64_t seed) : slot_(slot), rng_(seed) {}
    Ctx(Slot* slot, const std::vector<uint64_t>& replay)
        : slot_(slot), replay_(&replay)
    {
    }

    // a value in [0, max]; shrinks towards 0
    uint64_t u(uint64_t max)
    {
        uint64_t v = 0;
        if (replay_) {
            v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
            ++pos_;
            if (v > max) {
                v = max == UINT64_MAX ? v : v % (max + 1);
            }
        } else {
            uint64_t r = splitmix(rng_);
            v          = max == UINT64_MAX ? r : r % (max + 1);
        }
        record(v);
        return v;
    }
    // a value in [lo, hi]
    uint64_t in(uint64_t lo, uint64_t hi)
    {
        return lo + u(hi - lo);
    }
    // as in(), but boundary values and small values are over-represented
    uint64_t edgy(uint64_t lo, uint64_t hi)
    {
        uint64_t m = u(7);
        switch (m) {
        case 1: return lo;
        case 2: return hi;
        case 3: return std::min(hi, lo + 1);
        case 4: return hi == lo ? lo : hi - 1;
        case 5: return lo + u(std::min<uint64_t>(hi - lo, 3));
        default: return in(lo, hi);
        }
    }
    // true with probability num/den; shrinks to false
    bool chance(uint64_t num, uint64_t den)
    {
        uint64_t v = u(den - 1);
        return v >= den - num;
    }
    bool flip()
    {
        return chance(1, 2);
    }
    // index drawn with the given weights; shrinks towards index 0
    size_t weighted(std::initializer_list<unsigned> w)
    {
        uint64_t tot = 0;
        for (auto x : w) {
            tot += x;
        }
        uint64_t v = u(tot - 1);
        size_t   i = 0;
        for (auto x : w) {
            if (v < x) {
                return i;
            }
            v -= x;
            ++i;
        }
        return 0;
    }
    template<class C>
    auto& pick(C& c)
    {
        if (c.empty()) {
            throw std::logic_error("pbt: pick from empty");
        }
        return c[u(c.size() - 1)];
    }
    std::string bytes(size_t n)
    {
        std::string s(n, '\0');
        for (auto& ch : s) {
            ch = static_cast<char>(u(255));
        }
        return s;
    }
    // cheap pseudo-random 64 bit stream derived from ONE choice
    uint64_t seed64()
    {
        return u(UINT64_MAX);
    }

    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        char    buf[1024];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof(buf), fmt, ap);
        va_end(ap);
        size_t len = slot_->notes_len.load();
        size_t l   = strlen(buf);
        if (len + l + 2 < kNotes) {
            memcpy(slot_->notes + len, buf, l);
            slot_->notes[len + l] = '\n';
            slot_->notes_len.store(len + l + 1);
        }
    }
    [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        char    buf[2048];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof(buf), fmt, ap);
        va_end(ap);
        throw Failure(buf);
    }
    void label(const std::string& l, uint64_t n = 1)
    {
        labels_[l] += n;
    }
    void nontrivial(bool b = true)
    {
        if (b) {
            nontrivial_ = true;
        }
    }
    void discard()
    {
        throw Discard{};
    }
    // scratch directory of this case: empty at the start, removed by the engine
    const std::string& dir() const
    {
        return dir_;
    }
    size_t budget_left() const
    {
        return kMaxChoices - n_;
    }

    std::string                     dir_;
    std::map<std::string, uint64_t> labels_;
    bool                            nontrivial_{false};
    uint64_t                        hash_{1469598103934665603ULL};
    size_t                          n_{0};
    bool                            replaying() const { return replay_ != nullptr; }

private:
    void record(uint64_t v)
    {
        if (n_ < kMaxChoices) {
            slot_->choices[n_] = v;
            slot_->n_choices.store(n_ + 1, std::memory_order_relaxed);
        }
        ++n_;
        hash_ = (hash_ ^ v) * 1099511628211ULL;
        hash_ ^= hash_ >> 29;
    }
    Slot*                        slot_;
    uint64_t                     rng_{0};
    const std::vector<uint64_t>* replay_{nullptr};
    size_t                       pos_{0};
};

#define PBT_ASSERT(ctx, cond, ...)                                             \
    do {                                                                       \
        if (!(cond)) {                                                         \
            (ctx).fail(__VA_ARGS__);                                           \
        }                                                                      \
    } while (0)

// ---------------------------------------------------------------------------

struct Check
{
    std::string                property; // e.g. "C01"
    std::string                name;     // sub-check name
    std::string                rule;     // how cases are made / non-trivial rule
    std::function<void(Ctx&)>  body;
    uint64_t                   quick_cases{1000};
    uint64_t                   thorough_cases{20000};
    double                     case_timeout_s{60};
    bool                       needs_dir{false};
    // the outcome depends on thread timing: replays are attempted many times
    bool                       scheduled{false};
    unsigned                   workers{0}; // 0: default
    double                     quick_cap_s{60};
    double                     thorough_cap_s{1200};
};

inline void rm_rf(const std::string& p)
{
    // only ever called on directories created by this engine under scratch root
    struct stat st;
    if (lstat(p.c_str(), &st) != 0) {
        return;
    }
    if (S_ISDIR(st.st_mode)) {
        DIR* d = opendir(p.c_str());
        if (d) {
            std::vector<std::string> names;
            while (dirent* e = readdir(d)) {
                std::string n = e->d_name;
                if (n != "." && n != "..") {
                    names.push_back(n);
                }
            }
            closedir(d);
            for (auto& n : names) {
                rm_rf(p + "/" + n);
            }
        }
        rmdir(p.c_str());
    } else {
        unlink(p.c_str());
    }
}

inline std::string json_str(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c == '\n') {
            o += "\\n";
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof(b), "\\u%04x", c);
            o += b;
        } else {
            o += static_cast<char>(c);
        }
    }
    return o + "\"";
}

struct Outcome
{
    enum Kind
    {
        Pass,
        Fail,
        Crash,
        Hang,
        Infra
    } kind{Pass};
    std::string           msg;
    std::string           notes;
    std::vector<uint64_t> choices;
    bool                  idle{false}; // hang: no thread was using the processor
    const char*           kind_name() const
    {
        static const char* n[] = {"pass", "oracle", "crash", "hang", "infra"};
        return n[kind];
    }
};

class Engine
{
public:
    Engine(int argc, char** argv, std::vector<Check> checks)
        : checks_(std::move(checks))
    {
        for (int i = 1; i < argc; ++i) {
            std::string a   = argv[i];
            auto        val = [&]() -> std::string {
                if (i + 1 >= argc) {
                    fprintf(stderr, "missing value for %s\n", a.c_str());
                    exit(2);
                }
                return argv[++i];
            };
            if (a == "--replay") {
                replay_ = val();
            } else if (a == "--seed") {
                seed_ = strtoull(val().c_str(), nullptr, 10);
            } else if (a == "--tier") {
                thorough_ = (val() == "thorough");
            } else if (a == "--out") {
                out_ = val();
            } else if (a == "--replay-dir") {
                replay_dir_ = val();
            } else if (a == "--scratch") {
                scratch_root_ = val();
            } else if (a == "--workers") {
                workers_ = static_cast<unsigned>(atoi(val().c_str()));
            } else if (a == "--only") {
                only_ = val();
            } else if (a == "--cases") {
                cases_override_ = strtoull(val().c_str(), nullptr, 10);
            } else if (a == "--cap") {
                cap_override_ = atof(val().c_str());
            } else if (a == "--prop") {
                prop_ = val();
            } else if (a == "--verbose") {
                verbose_ = true;
            } else {
                fprintf(stderr, "unknown argument %s\n", a.c_str());
                exit(2);
            }
        }
    }

    int run()
    {
        char tmpl[256];
        snprintf(tmpl, sizeof(tmpl), "%s/vpbt-XXXXXX", scratch_root_.c_str());
        if (!mkdtemp(tmpl)) {
            perror("mkdtemp");
            return 2;
        }
        scratch_ = tmpl;
        int rc   = replay_.empty() ? explore() : do_replay();
        rm_rf(scratch_);
        return rc;
    }

private:
    Slot* new_slot()
    {
        void* p = mmap(nullptr,
                       sizeof(Slot),
                       PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS,
                       -1,
                       0);
        if (p == MAP_FAILED) {
            perror("mmap");
            exit(2);
        }
        return static_cast<Slot*>(p);
    }

    static int64_t now_ms()
    {
        return static_cast<int64_t>(now_s() * 1000.0);
    }

    void silence(const std::string& err_path)
    {
        int fd = open(err_path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd >= 0) {
            if (!verbose_) {
                dup2(fd, 1);
                dup2(fd, 2);
            }
            close(fd);
        }
        // the library's logger or RocksDB may be chatty: bound the file
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
    }

    // runs one case in this process; true if passed / discarded
    bool run_case(const Check& c, Ctx& ctx, Slot* slot, const std::string& dir)
    {
        slot->notes_len = 0;
        slot->n_choices = 0;
        ctx.dir_        = dir;
        if (c.needs_dir) {
            rm_rf(dir);
            mkdir(dir.c_str(), 0700);
        }
        bool ok = true;
        try {
            c.body(ctx);
        } catch (const Discard&) {
            slot->discarded++;
            ctx.nontrivial_ = false;
        } catch (const Failure& f) {
            snprintf(slot->msg, kMsg, "%s", f.what());
            ok = false;
        } catch (const std::exception& e) {
            snprintf(slot->msg, kMsg, "unexpected exception: %s", e.what());
            ok = false;
        } catch (...) {
            snprintf(slot->msg, kMsg, "unexpected exception of unknown type");
            ok = false;
        }
        if (c.needs_dir) {
            rm_rf(dir);
        }
        if (!ok) {
            slot->failed = 1;
        }
        return ok;
    }

    static std::string tail(const std::string& path, size_t n)
    {
        std::ifstream     in(path, std::ios::binary);
        std::stringstream ss;
        ss << in.rdbuf();
        std::string s = ss.str();
        // sanitizer reports: keep the interesting lines
        std::string       out;
        std::stringstream ls(s);
        std::string       line;
        while (std::getline(ls, line)) {
            if (line.find("ERROR:") != std::string::npos
                || line.find("Assertion") != std::string::npos
                || line.find("runtime error") != std::string::npos
                || line.find("WARNING: ThreadSanitizer") != std::string::npos
                || line.find("terminate called") != std::string::npos
                || line.find("what():") != std::string::npos
                || (line.find("    #") != std::string::npos
                    && line.find("/repo/") != std::string::npos)) {
                out += line + "\n";
            }
        }
        if (out.empty()) {
            out = s;
        }
        if (out.size() > n) {
            out = out.substr(0, n);
        }
        return out;
    }

    // runs one case from a choice list in a forked child
    Outcome run_isolated(const Check&                 c,
                         const std::vector<uint64_t>* choices,
                         uint64_t                     seed,
                         double                       timeout_s)
    {
        static Slot* slot = new_slot();
        static int   cnt  = 0;
        slot->failed      = 0;
        slot->n_choices   = 0;
        slot->notes_len   = 0;
        slot->msg[0]      = 0;
        std::string err   = scratch_ + "/iso.err";
        std::string dir   = scratch_ + "/iso" + std::to_string(cnt++ % 4);
        pid_t       pid   = fork();
        if (pid == 0) {
            setpgid(0, 0);
            silence(err);
            bool ok;
            if (choices) {
                Ctx ctx(slot, *choices);
                ok = run_case(c, ctx, slot, dir);
            } else {
                Ctx ctx(slot, seed);
                ok = run_case(c, ctx, slot, dir);
            }
            fflush(nullptr);
            _exit(ok ? 0 : 9);
        }
        setpgid(pid, pid);
        double  t0 = now_s();
        int     st = 0;
        Outcome o;
        bool    timed_out = false;
        while (true) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) {
                break;
            }
            if (now_s() - t0 > timeout_s) {
                kill(-pid, SIGKILL);
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                timed_out = true;
                break;
            }
            usleep(now_s() - t0 < 0.05 ? 200 : 2000);
        }
        kill(-pid, SIGKILL);
        o.choices.assign(slot->choices,
                         slot->choices
                             + std::min<size_t>(slot->n_choices, kMaxChoices));
        o.notes.assign(slot->notes, slot->notes_len);
        if (timed_out) {
            o.kind = Outcome::Hang;
            o.msg  = "the case did not finish within "
                    + std::to_string(static_cast<int>(timeout_s)) + " s";
        } else if (slot->failed) {
            o.kind = Outcome::Fail;
            o.msg  = slot->msg;
        } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
            o.kind = Outcome::Infra;
            o.msg  = "killed";
        } else if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
            o.kind = Outcome::Crash;
            o.msg  = std::string("process died (")
                    + (WIFSIGNALED(st) ? strsignal(WTERMSIG(st))
                                       : ("exit " + std::to_string(WEXITSTATUS(st))).c_str())
                    + "): " + tail(err, 1500);
        }
        rm_rf(dir);
        return o;
    }

    struct Stats
    {
        uint64_t                        evaluations{0};
        uint64_t                        discarded{0};
        std::unordered_set<uint64_t>    nontrivial;
        std::map<std::string, uint64_t> labels;
        std::vector<std::string>        samples;
        double                          wall{0};
        uint64_t                        planned{0};
    };

    void worker(const Check& c, Slot* slot, unsigned w, uint64_t n, double deadline)
    {
        std::string base = scratch_ + "/w" + std::to_string(w);
        silence(base + ".err");
        Stats    st;
        uint64_t check_hash = 0;
        for (char ch : c.property + c.name) {
            check_hash = check_hash * 131 + static_cast<unsigned char>(ch);
        }
        for (uint64_t i = 0; i < n && now_s() < deadline; ++i) {
            uint64_t seed = mix(mix(seed_, check_hash), mix(w, i));
            slot->case_seed.store(seed);
            slot->case_no.store(i + 1);
            slot->started_ms.store(now_ms());
            Ctx  ctx(slot, seed);
            bool ok = run_case(c, ctx, slot, base + ".d");
            slot->started_ms.store(0);
            slot->evaluations++;
            if (!ok) {
                break;
            }
            if (ctx.nontrivial_) {
                st.nontrivial.insert(ctx.hash_);
                if (st.samples.size() < 2 || (st.samples.size() < 4 && i > n / 2)) {
                    std::string s(slot->notes, slot->notes_len);
                    if (s.size() > 1200) {
                        s = s.substr(0, 1200) + " ...";
                    }
                    if (!s.empty()) {
                        st.samples.push_back(s);
                    }
                }
            }
            for (auto& l : ctx.labels_) {
                st.labels[l.first] += l.second;
            }
            if (i % 64 == 0) { // the logger's output is of no interest
                if (ftruncate(2, 0)) {
                }
                lseek(2, 0, SEEK_SET);
            }
        }
        std::ofstream o(base + ".stats");
        o << st.nontrivial.size() << "\n";
        for (auto h : st.nontrivial) {
            o << h << "\n";
        }
        o << st.labels.size() << "\n";
        for (auto& l : st.labels) {
            o << l.second << " " << l.first << "\n";
        }
        o << st.samples.size() << "\n";
        for (auto& s : st.samples) {
            o << s.size() << "\n";
            o.write(s.data(), static_cast<std::streamsize>(s.size()));
            o << "\n";
        }
        o.close();
        _exit(0);
    }

    void collect(unsigned w, Stats& st)
    {
        std::ifstream in(scratch_ + "/w" + std::to_string(w) + ".stats");
        size_t        n;
        if (!(in >> n)) {
            return;
        }
        for (size_t i = 0; i < n; ++i) {
            uint64_t h;
            in >> h;
            st.nontrivial.insert(h);
        }
        in >> n;
        for (size_t i = 0; i < n; ++i) {
            uint64_t    v;
            std::string l;
            in >> v;
            in.get();
            std::getline(in, l);
            st.labels[l] += v;
        }
        in >> n;
        for (size_t i = 0; i < n; ++i) {
            size_t len;
            in >> len;
            in.get();
            std::string s(len, '\0');
            in.read(&s[0], static_cast<std::streamsize>(len));
            in.get();
            if (st.samples.size() < 5) {
                st.samples.push_back(s);
            }
        }
    }

    // random search; returns true and fills `o` when a failing case was found
    bool search(const Check& c, Stats& st, Outcome& o, uint64_t& fail_seed)
    {
        unsigned nw = workers_ ? workers_ : (c.workers ? c.workers : 8);
        uint64_t total
            = cases_override_ ? cases_override_
                              : (thorough_ ? c.thorough_cases : c.quick_cases);
        double cap = cap_override_ > 0 ? cap_override_
                                       : (thorough_ ? c.thorough_cap_s : c.quick_cap_s);
        uint64_t           per = (total + nw - 1) / nw;
        std::vector<Slot*> slots;
        std::vector<pid_t> pids;
        double             t0 = now_s();
        st.planned            = per * nw;
        for (unsigned w = 0; w < nw; ++w) {
            slots.push_back(new_slot());
            // left by the previous check
            unlink((scratch_ + "/w" + std::to_string(w) + ".stats").c_str());
        }
        fflush(nullptr);
        for (unsigned w = 0; w < nw; ++w) {
            pid_t pid = fork();
            if (pid == 0) {
                setpgid(0, 0);
                worker(c, slots[w], w, per, t0 + cap);
                _exit(0);
            }
            setpgid(pid, pid);
            pids.push_back(pid);
        }
        bool              found = false;
        std::vector<bool> done(nw, false);
        unsigned          left = nw;
        int               bad  = -1;
        while (left > 0 && !found) {
            bool progress = false;
            for (unsigned w = 0; w < nw && !found; ++w) {
                if (done[w]) {
                    continue;
                }
                int   s;
                pid_t r = waitpid(pids[w], &s, WNOHANG);
                if (r == pids[w]) {
                    done[w] = true;
                    --left;
                    progress = true;
                    if (slots[w]->failed) {
                        o.kind = Outcome::Fail;
                        o.msg  = slots[w]->msg;
                        found  = true;
                        bad    = static_cast<int>(w);
                    } else if (WIFSIGNALED(s) && WTERMSIG(s) == SIGKILL) {
                        fprintf(stderr, "note: worker %u was killed from outside\n", w);
                    } else if (WIFSIGNALED(s) || (WIFEXITED(s) && WEXITSTATUS(s) != 0)) {
                        o.kind = Outcome::Crash;
                        o.msg  = "process died: "
                                + tail(scratch_ + "/w" + std::to_string(w) + ".err", 1500);
                        found = true;
                        bad   = static_cast<int>(w);
                    }
                } else {
                    int64_t s_ms = slots[w]->started_ms.load();
                    if (s_ms != 0
                        && static_cast<double>(now_ms() - s_ms) / 1000.0
                               > c.case_timeout_s) {
                        o.kind = Outcome::Hang;
                        o.msg  = "the case did not finish within "
                                + std::to_string(static_cast<int>(c.case_timeout_s)) + " s";
                        uint64_t c0 = cpu_ticks(pids[w]);
                        usleep(1500000);
                        o.idle = c0 != UINT64_MAX && cpu_ticks(pids[w]) <= c0 + 1;
                        found  = true;
                        bad    = static_cast<int>(w);
                    }
                }
            }
            if (!progress && !found) {
                usleep(3000);
            }
        }
        for (unsigned w = 0; w < nw; ++w) {
            kill(-pids[w], SIGKILL);
            if (!done[w]) {
                kill(pids[w], SIGKILL);
                waitpid(pids[w], nullptr, 0);
            }
        }
        if (bad >= 0) {
            Slot* s   = slots[static_cast<size_t>(bad)];
            fail_seed = s->case_seed;
            o.choices.assign(s->choices,
                             s->choices + std::min<size_t>(s->n_choices, kMaxChoices));
            o.notes.assign(s->notes, s->notes_len);
        }
        for (unsigned w = 0; w < nw; ++w) {
            st.evaluations += slots[w]->evaluations;
            st.discarded += slots[w]->discarded;
            collect(w, st);
            munmap(slots[w], sizeof(Slot));
            rm_rf(scratch_ + "/w" + std::to_string(w) + ".d");
        }
        st.wall = now_s() - t0;
        return found;
    }

    // processor time used by a worker this engine started
    static uint64_t cpu_ticks(pid_t pid)
    {
        std::ifstream f("/proc/" + std::to_string(pid) + "/stat");
        std::string   l;
        std::getline(f, l);
        size_t p = l.rfind(')');
        if (p == std::string::npos) {
            return UINT64_MAX;
        }
        std::istringstream is(l.substr(p + 2));
        std::string        x;
        uint64_t           tot = 0;
        for (int i = 3; i <= 15 && is >> x; ++i) {
            if (i >= 14) {
                tot += strtoull(x.c_str(), nullptr, 10);
            }
        }
        return tot;
    }

    bool same(const Outcome& o, Outcome::Kind k)
    {
        (void)k;
        return o.kind == Outcome::Fail || o.kind == Outcome::Crash
               || o.kind == Outcome::Hang;
    }

    // tries up to n runs, returns the number of failing ones (stops at `want`)
    int attempts(const Check&                 c,
                 const std::vector<uint64_t>& ch,
                 int                          n,
                 int                          want,
                 double                       timeout,
                 Outcome&                     last,
                 double                       cap_s = 1e9)
    {
        int    f  = 0;
        double t0 = now_s();
        for (int i = 0; i < n && f < want && now_s() - t0 < cap_s; ++i) {
            Outcome o = run_isolated(c, &ch, 0, timeout);
            if (same(o, o.kind)) {
                ++f;
                last = o;
            }
        }
        return f;
    }

    void shrink(const Check& c, Outcome& best)
    {
        double   limit   = thorough_ ? 240 : 60;
        double   t0      = now_s();
        double   to      = best.kind == Outcome::Hang ? std::min(20.0, c.case_timeout_s)
                                                      : c.case_timeout_s;
        int      tries   = c.scheduled ? 6 : 1;
        uint64_t n_tried = 0;
        auto     accept  = [&](const std::vector<uint64_t>& cand) {
            ++n_tried;
            Outcome o;
            if (attempts(c, cand, tries, 1, to, o) == 0 || o.kind != best.kind) {
                return false;
            }
            // keep what the case actually consumed
            if (o.choices.size() > cand.size()) {
                o.choices.resize(cand.size());
            }
            auto key = [](const std::vector<uint64_t>& v) {
                long double s = 0;
                for (auto x : v) {
                    s += static_cast<long double>(x);
                }
                return std::make_pair(v.size(), s);
            };
            if (key(o.choices) < key(best.choices)) {
                best = o;
                return true;
            }
            return false;
        };
        bool improved = true;
        while (improved && now_s() - t0 < limit) {
            improved = false;
            // delete chunks
            for (size_t len = std::max<size_t>(1, best.choices.size() / 2); len >= 1;
                 len /= 2) {
                size_t i = best.choices.size();
                while (i > 0 && now_s() - t0 < limit) {
                    size_t start = i > len ? i - len : 0;
                    auto   cand  = best.choices;
                    cand.erase(cand.begin() + static_cast<long>(start),
                               cand.begin()
                                   + static_cast<long>(std::min(i, cand.size())));
                    if (accept(cand)) {
                        improved = true;
                        i        = std::min(start, best.choices.size());
                    } else {
                        i = start;
                    }
                }
                if (len == 1) {
                    break;
                }
            }
            // zero chunks
            for (size_t len = std::max<size_t>(1, best.choices.size() / 4); len >= 1;
                 len /= 2) {
                for (size_t i = 0; i < best.choices.size() && now_s() - t0 < limit;
                     i += len) {
                    auto cand = best.choices;
                    bool any  = false;
                    for (size_t k = i; k < std::min(i + len, cand.size()); ++k) {
                        any |= cand[k] != 0;
                        cand[k] = 0;
                    }
                    if (any && accept(cand)) {
                        improved = true;
                    }
                }
                if (len == 1) {
                    break;
                }
            }
            // lower single values
            for (size_t i = 0; i < best.choices.size() && now_s() - t0 < limit; ++i) {
                uint64_t lo = 0;
                while (i < best.choices.size() && best.choices[i] > lo
                       && now_s() - t0 < limit) {
                    uint64_t mid  = lo + (best.choices[i] - lo) / 2;
                    auto     cand = best.choices;
                    cand[i]       = mid;
                    if (accept(cand)) {
                        improved = true;
                    } else {
                        lo = mid + 1;
                    }
                }
            }
        }
        fprintf(stderr,
                "shrink: %" PRIu64 " candidates, %zu choices left, %.1f s\n",
                n_tried,
                best.choices.size(),
                now_s() - t0);
    }

    std::string write_replay(const Check& c, const Outcome& o)
    {
        mkdir(replay_dir_.c_str(), 0755);
        uint64_t h = 1469598103934665603ULL;
        for (auto v : o.choices) {
            h = (h ^ v) * 1099511628211ULL;
        }
        char name[128];
        snprintf(name,
                 sizeof(name),
                 "%s/%s-%s-%016" PRIx64 ".replay",
                 replay_dir_.c_str(),
                 c.property.c_str(),
                 c.name.c_str(),
                 h);
        std::ofstream f(name);
        f << "property " << c.property << "\ncheck " << c.name << "\nkind "
          << o.kind_name() << "\nchoices " << o.choices.size() << "\n";
        for (auto v : o.choices) {
            f << v << " ";
        }
        f << "\n--- message\n" << o.msg << "\n--- case\n" << o.notes << "\n";
        return name;
    }

    int do_replay()
    {
        std::ifstream         f(replay_);
        std::string           k, prop, name, kind;
        size_t                n = 0;
        std::vector<uint64_t> ch;
        f >> k >> prop >> k >> name >> k >> kind >> k >> n;
        for (size_t i = 0; i < n; ++i) {
            uint64_t v;
            f >> v;
            ch.push_back(v);
        }
        for (auto& c : checks_) {
            if (c.property == prop && c.name == name) {
                Outcome o;
                int     fails
                    = attempts(c, ch, c.scheduled ? 100 : 1, 1, c.case_timeout_s, o, 120);
                if (fails) {
                    printf("replay: property %s check %s still fails (%s): %s\n%s\n",
                           prop.c_str(),
                           name.c_str(),
                           o.kind_name(),
                           o.msg.c_str(),
                           o.notes.c_str());
                    printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay_.c_str());
                    return 1;
                }
                printf("replay: passes\n");
                return 0;
            }
        }
        fprintf(stderr, "no check %s/%s in this binary\n", prop.c_str(), name.c_str());
        return 2;
    }

    int explore()
    {
        int               rc = 0;
        std::stringstream js;
        js << "[";
        bool first = true;
        for (auto& c : checks_) {
            if ((!only_.empty() && c.name != only_)
                || (!prop_.empty() && c.property != prop_)) {
                continue;
            }
            Stats       st;
            Outcome     o;
            uint64_t    fseed = 0;
            std::string replay_path;
            bool        found      = search(c, st, o, fseed);
            bool        violation  = false;
            std::string unconfirmed;
            if (found) {
                fprintf(stderr,
                        "%s/%s: %s: %s\n%s\n",
                        c.property.c_str(),
                        c.name.c_str(),
                        o.kind_name(),
                        o.msg.c_str(),
                        o.notes.substr(0, 3000).c_str());
                // confirm from the recorded choices
                Outcome last;
                double  to   = o.kind == Outcome::Hang ? c.case_timeout_s * 2
                                                       : c.case_timeout_s * 1.5;
                int     n    = c.scheduled ? 60 : 3;
                int     want = c.scheduled ? 1 : 3;
                int     got  = attempts(c,
                                   o.choices,
                                   n,
                                   o.kind == Outcome::Hang ? 1 : want,
                                   to,
                                   last,
                                   300);
                if (got > 0) {
                    Outcome best  = last;
                    best.choices  = o.choices.size() < last.choices.size() ? o.choices
                                                                           : last.choices;
                    if (best.kind != Outcome::Hang) {
                        shrink(c, best);
                    }
                    o         = best;
                    violation = true;
                } else if (c.scheduled && o.kind == Outcome::Fail) {
                    // the oracle saw it; the schedule just does not come back
                    violation = true;
                    o.msg += " (seen once; this schedule did not recur in replays)";
                } else if (o.kind == Outcome::Crash) {
                    // state left by earlier cases of the same worker, or a schedule
                    violation = true;
                    o.msg += " (seen once; not reproduced in isolation)";
                } else if (o.kind == Outcome::Fail) {
                    violation = true;
                    o.msg += " (seen once; not reproduced in isolation)";
                } else if (c.scheduled && o.kind == Outcome::Hang && o.idle) {
                    violation = true;
                    o.msg += ", all its threads asleep (deadlock seen once; this schedule did "
                             "not recur in replays)";
                } else {
                    unconfirmed = o.msg;
                    fprintf(stderr, "not confirmed, not reported: %s\n", o.msg.c_str());
                }
                if (violation) {
                    replay_path = write_replay(c, o);
                    fprintf(stderr,
                            "--- %s/%s minimal case (%zu choices), %s: %s\n%s\n",
                            c.property.c_str(),
                            c.name.c_str(),
                            o.choices.size(),
                            o.kind_name(),
                            o.msg.c_str(),
                            o.notes.substr(0, 4000).c_str());
                    printf("VIOLATION property=%s replay=%s\n",
                           c.property.c_str(),
                           replay_path.c_str());
                    fflush(stdout);
                    rc = 1;
                }
            }
            fprintf(stderr,
                    "%s/%s: %" PRIu64 " cases (%" PRIu64 " planned), %zu distinct non-trivial, %" PRIu64
                    " discarded, %.1f s\n",
                    c.property.c_str(),
                    c.name.c_str(),
                    st.evaluations,
                    st.planned,
                    st.nontrivial.size(),
                    st.discarded,
                    st.wall);
            if (verbose_ || getenv("PBT_LABELS")) {
                for (auto& l : st.labels) {
                    fprintf(stderr, "    %-50s %" PRIu64 "\n", l.first.c_str(), l.second);
                }
            }
            js << (first ? "\n" : ",\n") << " {\"check\": " << json_str(c.name)
               << ", \"rule\": " << json_str(c.rule)
               << ", \"evaluations\": " << st.evaluations << ", \"planned\": " << st.planned
               << ", \"discarded\": " << st.discarded
               << ", \"distinct_nontrivial\": " << st.nontrivial.size()
               << ", \"wall_s\": " << st.wall << ", \"violation\": "
               << (violation ? json_str(replay_path) : std::string("null"))
               << ", \"unconfirmed\": "
               << (unconfirmed.empty() ? std::string("null") : json_str(unconfirmed))
               << ", \"labels\": {";
            bool f2 = true;
            for (auto& l : st.labels) {
                js << (f2 ? "" : ", ") << json_str(l.first) << ": " << l.second;
                f2 = false;
            }
            js << "}, \"samples\": [";
            f2 = true;
            for (auto& s : st.samples) {
                js << (f2 ? "" : ", ") << json_str(s);
                f2 = false;
            }
            js << "]}";
            first = false;
            if (violation) {
                break; // one violation is enough, the rest may depend on it
            }
        }
        js << "\n]\n";
        if (!out_.empty()) {
            std::ofstream(out_) << js.str();
        }
        return rc;
    }

    std::vector<Check> checks_;
    std::string        replay_, out_, only_, prop_;
    std::string        replay_dir_{"replays"};
    std::string        scratch_root_{"/tmp"};
    std::string        scratch_;
    uint64_t           seed_{1};
    uint64_t           cases_override_{0};
    double             cap_override_{0};
    unsigned           workers_{0};
    bool               thorough_{false};
    bool               verbose_{false};
};

} // namespace pbt
