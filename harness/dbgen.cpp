// C20: the database generator produces the distribution it promises
#include "pbt.hpp"

#include <sse/schemes/utils/db_generator.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <iostream>
#include <mutex>
#include <cmath>
#include <cstring>
#include <random>
#include <set>
#include <thread>

using pbt::Ctx;

// the generator uses as many threads as there are processors, and a random device
namespace {
std::atomic<unsigned> g_threads{0};
std::mutex            g_rd_mtx;
uint64_t              g_rd_state = 1;
} // namespace
extern "C" {
unsigned __real__ZNSt6thread20hardware_concurrencyEv();
unsigned __wrap__ZNSt6thread20hardware_concurrencyEv()
{
    unsigned n = g_threads;
    return n ? n : __real__ZNSt6thread20hardware_concurrencyEv();
}
unsigned __wrap__ZNSt13random_device9_M_getvalEv(std::random_device*)
{
    std::lock_guard<std::mutex> l(g_rd_mtx);
    return static_cast<unsigned>(pbt::splitmix(g_rd_state));
}
}

namespace {

struct Family
{
    const char* prefix;
    size_t      size; // list size; 0: percentile keyword
    bool        random;
};
// longest prefixes first
const Family kFamilies[] = {
    {"Group-rand-10^2_", 100, true},     {"Group-rand-10^3_", 1000, true},
    {"Group-rand-10^4_", 10000, true},   {"Group-rand-10^5_", 100000, true},
    {"Group-rand-10^6_", 1000000, true}, {"Group-10^1_", 10, false},
    {"Group-10^2_", 100, false},         {"Group-10^3_", 1000, false},
    {"Group-10^4_", 10000, false},       {"Group-10^5_", 100000, false},
    {"Group-10^6_", 1000000, false},     {"Group-20_", 20, false},
    {"Group-30_", 30, false},            {"Group-60_", 60, false},
    {"0.1_", 0, false},                  {"10_", 0, false},
    {"1_", 0, false},
};
constexpr size_t kN = sizeof(kFamilies) / sizeof(kFamilies[0]);

// A worker has a random group of s documents for each 1.2*s documents of its share of the database
// (with a tenth less of the smallest). Each group is drawn more than s times on average.
size_t random_groups(size_t n, size_t threads, size_t f)
{
    long double fraction = f == 0 ? 0.9 : 1.0;
    return static_cast<size_t>(std::floor(
        fraction * static_cast<long double>(n)
        / (1.2 * static_cast<long double>(threads * kFamilies[f].size))));
}

bool parse_number(const std::string& s, size_t& pos, size_t& v)
{
    size_t b = pos;
    v        = 0;
    while (pos < s.size() && s[pos] >= '0' && s[pos] <= '9') {
        v = v * 10 + static_cast<size_t>(s[pos++] - '0');
    }
    return pos > b;
}

void body(Ctx& c)
{
    size_t n;
    switch (c.weighted({2, 4, 4, 3, 1})) {
    case 0: n = c.u(3); break;
    case 1: n = c.u(70); break;
    case 2: n = c.u(1500); break;
    case 3: { // around the sizes of the groups
        static const size_t b[] = {10, 20, 30, 60, 100, 120, 1000, 1200, 2400};
        n                       = b[c.u(8)] * (1 + c.u(3)) + c.u(3) - 1;
        break;
    }
    default: n = 5000 + c.u(20000); break;
    }
    unsigned threads = static_cast<unsigned>(c.flip() ? 1 + c.u(3) : c.edgy(1, 16));
    {
        std::lock_guard<std::mutex> l(g_rd_mtx);
        g_rd_state = c.seed64();
    }
    g_threads = threads;
    c.note("%zu documents, %u threads", n, threads);
    std::mutex                                              m;
    std::map<size_t, std::vector<std::string>>              docs;
    std::map<std::string, size_t>                           sizes;
    sse::sophos::gen_db(n, [&](const std::string& kw, size_t doc) {
        std::lock_guard<std::mutex> l(m);
        docs[doc].push_back(kw);
        ++sizes[kw];
    });
    g_threads = 0;
    PBT_ASSERT(c, docs.size() == n, "%zu documents were generated instead of %zu", docs.size(), n);

    // keyword -> family, worker, number
    std::map<size_t, std::map<size_t, std::map<size_t, size_t>>> groups; // family, worker, number
    auto family_of = [&](const std::string& kw, size_t& worker, size_t& number) -> size_t {
        for (size_t f = 0; f < kN; ++f) {
            std::string p = kFamilies[f].prefix;
            if (kw.compare(0, p.size(), p) != 0) {
                continue;
            }
            size_t pos = p.size();
            PBT_ASSERT(c,
                       parse_number(kw, pos, worker) && pos < kw.size() && kw[pos++] == '_'
                           && parse_number(kw, pos, number) && pos == kw.size(),
                       "malformed keyword %s", kw.c_str());
            return f;
        }
        c.fail("unknown keyword %s", kw.c_str());
    };
    for (const auto& e : sizes) {
        size_t w, k, f = family_of(e.first, w, k);
        groups[f][w][k] = e.second;
    }
    // percentile keywords that contain one another
    std::map<std::pair<std::string, int>, std::pair<std::string, std::string>> nested;
    size_t                                                                     random_entries = 0;
    for (const auto& d : docs) {
        std::map<size_t, std::vector<std::pair<size_t, size_t>>> by;
        std::map<std::pair<size_t, size_t>, std::string>         pct;
        for (const auto& kw : d.second) {
            size_t w, k, f = family_of(kw, w, k);
            by[f].emplace_back(w, k);
            if (kFamilies[f].size == 0) {
                pct[{f, k}] = kw;
            }
            random_entries += kFamilies[f].random;
        }
        for (size_t f = 0; f < kN; ++f) {
            size_t cnt = by[f].size();
            if (kFamilies[f].random) {
                PBT_ASSERT(c, cnt <= 1, "a document has %zu entries in %s*", cnt,
                           kFamilies[f].prefix);
            } else if (kFamilies[f].size == 0) {
                PBT_ASSERT(c, cnt == 2 && by[f][0].second != by[f][1].second
                                  && by[f][0].second + by[f][1].second == 3,
                           "a document has %zu entries in %s* instead of one in each of the two draws", cnt,
                           kFamilies[f].prefix);
                size_t q = f == 14 ? 1000 : f == 15 ? 10 : 100;
                PBT_ASSERT(c, by[f][0].first < q && by[f][1].first < q,
                           "a keyword of %s* is out of range", kFamilies[f].prefix);
            } else {
                PBT_ASSERT(c, cnt == 1, "a document has %zu entries in %s* instead of one", cnt,
                           kFamilies[f].prefix);
            }
        }
        for (size_t draw = 1; draw <= 2; ++draw) {
            auto v = std::make_pair(pct[{15, draw}], pct[{16, draw}]);
            auto e = nested.emplace(std::make_pair(pct[{14, draw}], static_cast<int>(draw)), v);
            PBT_ASSERT(c, e.first->second == v, "documents of %s are not all under the same larger keywords",
                       pct[{14, draw}].c_str());
        }
    }
    for (const auto& g : groups) {
        const Family& f = kFamilies[g.first];
        if (f.size == 0) {
            continue;
        }
        size_t total = 0;
        for (const auto& w : g.second) {
            PBT_ASSERT(c, w.first < threads, "a keyword of %s* belongs to worker %zu of %u", f.prefix,
                       w.first, threads);
            size_t tot = 0, expect = 0;
            for (const auto& k : w.second) {
                PBT_ASSERT(c, k.second <= f.size, "keyword %s%zu_%zu has %zu entries, more than %zu",
                           f.prefix, w.first, k.first, k.second, f.size);
                tot += k.second;
                if (!f.random) {
                    PBT_ASSERT(c, k.first == expect++, "a keyword of %s%zu_* is missing", f.prefix,
                               w.first);
                    PBT_ASSERT(c, k.second == f.size || k.first + 1 == w.second.size(),
                               "keyword %s%zu_%zu has %zu entries and is not the last one", f.prefix,
                               w.first, k.first, k.second);
                }
            }
            total += tot;
        }
        if (!f.random) {
            PBT_ASSERT(c, total == n, "%s* holds %zu entries instead of %zu", f.prefix, total, n);
        }
    }
    // all the random groups that fit in the database are used
    for (size_t f = 0; f < 5; ++f) {
        size_t g = random_groups(n, threads, f);
        for (unsigned w = 0; w < threads; ++w) {
            auto used = groups[f][w];
            PBT_ASSERT(c, used.size() == g && (g == 0 || used.rbegin()->first == g - 1),
                       "worker %u uses %zu random groups of %zu entries, there are %zu", w, used.size(),
                       kFamilies[f].size, g);
        }
    }
    c.nontrivial(n >= 20 && threads > 1);
    c.label("documents", n);
    c.label("random group entries", random_entries);
    c.label(threads == 1 ? "one thread" : "several threads");
}

// Large databases: the largest groups get full, and there are many groups
void large(Ctx& c)
{
    size_t   n;
    unsigned threads;
    if (c.chance(2, 3)) {
        n       = 8750000 + c.u(500000);
        threads = 1;
    } else {
        threads = static_cast<unsigned>(c.in(1, 6));
        n       = 150000 * threads + c.u(1200000) * c.in(1, threads);
    }
    {
        std::lock_guard<std::mutex> l(g_rd_mtx);
        g_rd_state = c.seed64();
    }
    g_threads = threads;
    c.note("%zu documents, %u threads", n, threads);
    struct Mine
    {
        std::vector<std::vector<uint32_t>> lists; // family, number -> entries
        size_t                             total[kN] = {};
        uint64_t                           sum[kN] = {}; // of the documents of the family
        std::string                        bad;
        size_t                             worker = ~size_t(0);
    };
    std::mutex                       m;
    std::map<std::thread::id, Mine*> all;
    static thread_local Mine*        mine;
    mine = nullptr;
    sse::sophos::gen_db(n, [&](const std::string& kw, size_t doc) {
        if (mine == nullptr) {
            std::lock_guard<std::mutex> l(m);
            mine = new Mine;
            mine->lists.resize(kN);
            all[std::this_thread::get_id()] = mine;
        }
        size_t f = 0;
        while (f < kN && kw.compare(0, strlen(kFamilies[f].prefix), kFamilies[f].prefix) != 0) {
            ++f;
        }
        size_t w, k, pos = f < kN ? strlen(kFamilies[f].prefix) : 0;
        if (f == kN || !parse_number(kw, pos, w) || pos >= kw.size() || kw[pos++] != '_'
            || !parse_number(kw, pos, k) || pos != kw.size() || k > n) {
            mine->bad = kw;
            return;
        }
        uint64_t s = doc;
        mine->total[f]++;
        mine->sum[f] += pbt::splitmix(s);
        if (kFamilies[f].size == 0) {
            return;
        }
        if (mine->worker == ~size_t(0)) {
            mine->worker = w;
        }
        if (mine->worker != w) {
            mine->bad = kw;
            return;
        }
        auto& l = mine->lists[f];
        if (l.size() <= k) {
            l.resize(k + 1);
        }
        l[k]++;
    });
    g_threads = 0;
    PBT_ASSERT(c, all.size() == threads, "%zu workers instead of %u", all.size(), threads);
    size_t           full = 0, docs = 0;
    std::set<size_t> workers;
    for (auto& e : all) {
        Mine& t = *e.second;
        PBT_ASSERT(c, t.bad.empty(), "unexpected keyword %s", t.bad.c_str());
        PBT_ASSERT(c, t.worker < threads && workers.insert(t.worker).second, "unexpected worker %zu", t.worker);
        size_t share = n / threads + (t.worker < n % threads);
        docs += share;
        for (size_t f = 0; f < kN; ++f) {
            const Family& fam = kFamilies[f];
            if (fam.size == 0) {
                PBT_ASSERT(c, t.total[f] == 2 * share && t.sum[f] == t.sum[14],
                           "%zu documents of a worker have %zu entries in %s*", share, t.total[f], fam.prefix);
                continue;
            }
            for (size_t k = 0; k < t.lists[f].size(); ++k) {
                PBT_ASSERT(c, t.lists[f][k] <= fam.size, "keyword %s%zu_%zu has %u entries", fam.prefix, t.worker, k,
                           t.lists[f][k]);
                full += fam.random && t.lists[f][k] == fam.size;
                if (fam.random) {
                    PBT_ASSERT(c, t.lists[f][k] > 0, "keyword %s%zu_%zu has no entry", fam.prefix, t.worker, k);
                } else {
                    PBT_ASSERT(c, t.lists[f][k] == fam.size || (k + 1 == t.lists[f].size() && t.lists[f][k] > 0),
                               "keyword %s%zu_%zu has %u entries and is not the last one", fam.prefix, t.worker, k,
                               t.lists[f][k]);
                }
            }
            if (fam.random) {
                size_t g = random_groups(n, threads, f);
                PBT_ASSERT(c, t.lists[f].size() == g, "a worker uses %zu random groups of %zu entries instead of %zu",
                           t.lists[f].size(), fam.size, g);
            } else {
                PBT_ASSERT(c, t.total[f] == share && t.sum[f] * 2 == t.sum[14],
                           "the %zu documents of a worker have %zu entries in %s*", share, t.total[f], fam.prefix);
            }
        }
        delete e.second;
    }
    c.label("documents", docs);
    c.label("full random lists", full);
    c.nontrivial(true);
}
} // namespace

int main(int argc, char** argv)
{
    std::cerr.rdbuf(nullptr);
    std::cout.rdbuf(nullptr);
    sse::logger::set_logging_level(spdlog::level::off);
    sse::logger::logger();
    std::vector<pbt::Check> checks(2);
    checks[0].property       = "C20";
    checks[0].name           = "generator";
    checks[0].rule           = "random database sizes (0..25000, around group sizes) and 1..16 worker threads; every "
                     "entry is accounted for; non-trivial: >=20 documents on several threads";
    checks[0].body           = body;
    checks[0].quick_cases    = 3000;
    checks[0].thorough_cases = 60000;
    checks[1].property       = "C20";
    checks[1].name           = "large";
    checks[1].rule           = "databases of 150000 to 9 million documents: totals, list sizes and groups; all non-trivial";
    checks[1].body           = large;
    checks[1].quick_cases    = 8;
    checks[1].thorough_cases = 200;
    checks[1].case_timeout_s = 300;
    checks[1].quick_cap_s    = 400;
#if defined(__SANITIZE_ADDRESS__)
    checks.pop_back();
    checks[0].name           = "generator_asan";
    checks[0].quick_cases    = 300;
    checks[0].thorough_cases = 6000;
#endif
    return pbt::Engine(argc, argv, checks).run();
}
