// C03: the Tethys allocation is valid and leaves the fewest elements in the stash
#include "pbt.hpp"
#include "refflow.hpp"

#include "tethys/details/tethys_allocator.hpp"

#include <sse/schemes/utils/logger.hpp>

#include <iostream>

using namespace sse::tethys::details;
using pbt::Ctx;

namespace {

struct LDesc
{
    size_t h0, h1, len, index;
};

template<class E, class F>
void expect_throw(Ctx& c, const char* what, F f)
{
    bool ok = false;
    try {
        f();
    } catch (const E&) {
        ok = true;
    }
    PBT_ASSERT(c, ok, "%s did not throw the documented exception", what);
}

void bad_insert(Ctx& c, TethysAllocator& a, size_t table, size_t page)
{
    auto o = ForcedLeft;
    switch (c.u(4)) {
    case 0:
        c.note("insert with the reserved index");
        expect_throw<std::invalid_argument>(c, "insert(index -1)", [&] {
            a.insert(TethysAllocatorKey(c.u(table - 1), c.u(table - 1), o), c.u(page), ~0UL);
        });
        break;
    case 1:
        c.note("insert a list that is too long");
        expect_throw<std::invalid_argument>(c, "insert(too long)", [&] {
            a.insert(TethysAllocatorKey(c.u(table - 1), c.u(table - 1), o),
                     page + 1 + c.edgy(0, 1000),
                     424242);
        });
        break;
    case 2:
        c.note("insert with an out-of-range first bucket");
        expect_throw<std::out_of_range>(c, "insert(bad h0)", [&] {
            a.insert(TethysAllocatorKey(table + c.u(3), c.u(table - 1), o), c.u(page), 424242);
        });
        break;
    case 3:
        c.note("insert with an out-of-range second bucket");
        expect_throw<std::out_of_range>(c, "insert(bad h1)", [&] {
            a.insert(TethysAllocatorKey(c.u(table - 1), table + c.u(3), o), c.u(page), 424242);
        });
        break;
    default:
        c.note("read the result before the allocation");
        PBT_ASSERT(c, !a.has_allocated(), "has_allocated() before allocate()");
        expect_throw<std::invalid_argument>(
            c, "get_stashed_edges() before allocate()", [&] { (void)a.get_stashed_edges(); });
        expect_throw<std::invalid_argument>(
            c, "get_allocation_graph() before allocate()", [&] {
                (void)a.get_allocation_graph();
            });
    }
}

void alloc_run(Ctx& c, bool large)
{
    bool   big   = !large && c.chance(1, 12);
    // more buckets and lists than fit in 8 or 16 bits; drawn from one seed
    size_t   size  = large ? c.weighted({4, 3, 2}) : 0;
    uint64_t seed  = large ? c.seed64() : 0;
    auto     draw  = [&](uint64_t max) { return large ? pbt::splitmix(seed) % (max + 1) : c.u(max); };
    size_t table = large ? (size == 0 ? c.edgy(250, 300) : size == 1 ? c.in(400, 1200) : c.edgy(65500, 66000)) : big ? c.in(2, 150) : c.edgy(1, 12);
    size_t page  = c.weighted({3, 3, 1}) == 0 ? c.in(1, 4) : (c.flip() ? c.edgy(1, 30) : c.edgy(1, 512));
    // buckets are counted in elements: nothing bounds their capacity
    bool huge = !large && c.chance(1, 5); // the depth-first search of paths is slow on huge capacities
    if (size == 2) {
        page = c.in(64, 512);
    }
    if (huge) {
        page = c.edgy(1, 7) << c.in(8, 44);
        page += c.u(3);
    }
    bool   bip   = c.flip() && table >= 2;
    // aim at a load from nearly empty to twice full
    double load  = static_cast<double>(c.in(1, 20)) / (size == 2 ? 80. : 10.);
    size_t budget
        = static_cast<size_t>(load * static_cast<double>(table) * static_cast<double>(page)) + 1;
    size_t maxl  = c.flip() ? page : std::max<size_t>(1, page / (1 + c.u(3)));
    if (size == 2) {
        maxl = page / c.in(8, 64);
    }
    size_t n_max = large ? (size == 2 ? 150000 : 4000) : big ? 600 : 40;
    size_t hot   = size < 2 && c.chance(1, 3) ? std::max<size_t>(1, table / 3) : table;

    std::vector<LDesc> ls;
    size_t             sum = 0;
    c.note("table of %zu buckets of capacity %zu", table, page);
    TethysAllocator a(table, page);
    bool            guards = c.chance(1, 4);
    size_t          idx    = c.chance(1, 4) ? c.edgy(0, 1ULL << 40) : 0;
    while (sum < budget && ls.size() < n_max) {
        LDesc d;
        d.len = large ? draw(maxl) : c.edgy(0, maxl);
        if (huge && draw(1)) {
            d.len = maxl - d.len; // long ones
        }
        if (bip) {
            size_t half = table / 2;
            d.h0        = draw(half - 1);
            d.h1        = half + draw(table - half - 1);
            if (hot < half) {
                d.h0 %= hot;
            }
        } else {
            d.h0 = draw(hot - 1);
            d.h1 = draw(hot - 1);
        }
        d.index = idx++;
        sum += d.len + (d.len == 0);
        if (guards && (large ? draw(500) == 0 : c.chance(1, 8))) {
            bad_insert(c, a, table, page);
        }
        if (ls.size() < 50) {
            c.note("  list %zu: length %zu, buckets %zu and %zu", d.index, d.len, d.h0, d.h1);
        }
        a.insert(TethysAllocatorKey(d.h0, d.h1, draw(1) ? ForcedLeft : ForcedRight),
                 d.len,
                 d.index);
        ls.push_back(d);
    }
    a.allocate();
    PBT_ASSERT(c, a.has_allocated(), "has_allocated() is false after allocate()");
    if (guards) {
        expect_throw<std::invalid_argument>(c, "second allocate()", [&] { a.allocate(); });
        expect_throw<std::invalid_argument>(c, "insert after allocate()", [&] {
            a.insert(TethysAllocatorKey(0, 0, ForcedLeft), 0, 1);
        });
    }

    // what was placed where
    std::map<size_t, const LDesc*> by_index;
    for (auto& l : ls) {
        by_index[l.index] = &l;
    }
    const TethysGraph&      g = a.get_allocation_graph();
    std::vector<size_t>     bucket(table, 0);
    std::map<size_t, size_t> seen_out, seen_in; // list -> times seen
    std::set<size_t>        partial;
    size_t                  stash = 0, total = 0;
    PBT_ASSERT(c, g.inner_vertices().size() == table, "the graph has the wrong size");
    for (size_t v = 0; v < table; ++v) {
        const Vertex& vx = g.inner_vertices()[VertexPtr(v)];
        for (auto ep : vx.in_edges) {
            const Edge& e = g.get_edge(ep);
            if (e.value_index == TethysAllocator::kEmptyIndexValue) {
                continue;
            }
            auto it = by_index.find(e.value_index);
            PBT_ASSERT(c, it != by_index.end(), "unknown list %zu in the graph", e.value_index);
            PBT_ASSERT(c,
                       it->second->h1 == v,
                       "list %zu enters bucket %zu, its second bucket is %zu",
                       e.value_index,
                       v,
                       it->second->h1);
            seen_in[e.value_index]++;
            bucket[v] += e.rec_flow;
        }
        for (auto ep : vx.out_edges) {
            const Edge& e = g.get_edge(ep);
            if (e.value_index == TethysAllocator::kEmptyIndexValue) {
                continue;
            }
            auto it = by_index.find(e.value_index);
            PBT_ASSERT(c, it != by_index.end(), "unknown list %zu in the graph", e.value_index);
            PBT_ASSERT(c,
                       it->second->h0 == v,
                       "list %zu leaves bucket %zu, its first bucket is %zu",
                       e.value_index,
                       v,
                       it->second->h0);
            seen_out[e.value_index]++;
            bucket[v] += e.flow;
            PBT_ASSERT(c,
                       e.capacity == it->second->len,
                       "list %zu has length %zu in the graph instead of %zu",
                       e.value_index,
                       e.capacity,
                       it->second->len);
            PBT_ASSERT(c,
                       e.flow <= e.capacity && e.rec_flow <= e.capacity
                           && e.flow + e.rec_flow <= e.capacity,
                       "list %zu of length %zu: %zu in its first bucket and %zu in its second",
                       e.value_index,
                       e.capacity,
                       e.flow,
                       e.rec_flow);
            size_t left = e.capacity - e.flow - e.rec_flow;
            stash += left;
            total += e.capacity;
            if (left > 0) {
                partial.insert(e.value_index);
            }
        }
    }
    for (auto& l : ls) {
        PBT_ASSERT(c,
                   seen_in[l.index] == 1 && seen_out[l.index] == 1,
                   "list %zu is attached %zu/%zu times to its buckets",
                   l.index,
                   seen_out[l.index],
                   seen_in[l.index]);
    }
    for (size_t v = 0; v < table; ++v) {
        PBT_ASSERT(c,
                   bucket[v] <= page,
                   "bucket %zu holds %zu elements, its capacity is %zu",
                   v,
                   bucket[v],
                   page);
    }
    std::multiset<size_t> stashed;
    for (auto ep : a.get_stashed_edges()) {
        stashed.insert(g.get_edge(ep).value_index);
    }
    PBT_ASSERT(c,
               stashed == std::multiset<size_t>(partial.begin(), partial.end()),
               "the stash has %zu lists, %zu lists are not fully placed",
               stashed.size(),
               partial.size());

    // optimality
    int     S = 0, T = 1, base = 2;
    RefFlow r(static_cast<int>(2 + table + ls.size()));
    for (size_t v = 0; v < table; ++v) {
        r.add(base + static_cast<int>(v), T, static_cast<int64_t>(page));
    }
    int lb = base + static_cast<int>(table);
    for (auto& l : ls) {
        r.add(S, lb, static_cast<int64_t>(l.len));
        r.add(lb, base + static_cast<int>(l.h0), static_cast<int64_t>(l.len));
        if (l.h1 != l.h0) {
            r.add(lb, base + static_cast<int>(l.h1), static_cast<int64_t>(l.len));
        }
        ++lb;
    }
    size_t best = total - static_cast<size_t>(r.flow(S, T));
    PBT_ASSERT(c,
               stash == best,
               "%zu elements are stashed, %zu would do (of %zu)",
               stash,
               best,
               total);
    bool moved = false;
    std::vector<size_t> direct(table, 0);
    for (auto& l : ls) {
        direct[l.h0] += l.len;
    }
    for (size_t v = 0; v < table; ++v) {
        moved = moved || direct[v] > page;
    }
    c.label(best > 0 ? "stash" : "no stash");
    c.label(moved ? "overflow" : "no overflow");
    c.nontrivial(moved && ls.size() >= 3);
}
void alloc_body(Ctx& c)
{
    alloc_run(c, false);
}
void alloc_large_body(Ctx& c)
{
    alloc_run(c, true);
}

void size_body(Ctx& c)
{
    size_t b   = c.edgy(1, 1024);
    size_t n   = c.chance(1, 4) ? b * c.u(2000) : (c.flip() ? c.edgy(1, 5000000) : c.edgy(1, 1ULL << 40));
    size_t e16 = c.chance(1, 4) ? 0 : c.u(64);
    double eps = static_cast<double>(e16) / 16.; // exactly representable
    size_t m   = tethys_graph_size(n, b, eps);
    c.note("tethys_graph_size(%zu, %zu, %f) = %zu", n, b, eps, m);
    size_t k = (n + b - 1) / b;
    // 2*ceil((1+eps)*k), in integers
    size_t want = 2 * ((k * (16 + e16) + 15) / 16);
    PBT_ASSERT(c, m == want, "expected %zu buckets", want);
    c.nontrivial(n > b);
}

} // namespace

int main(int argc, char** argv)
{
    std::cerr.rdbuf(nullptr);
    sse::logger::set_logging_level(spdlog::level::err);
    std::vector<pbt::Check> checks(3);
    checks[0].property       = "C03";
    checks[0].name           = "allocation";
    checks[0].rule           = "random lists over random tables (bipartite or not, hot buckets, load "
                     "0.1 to 2, pages of 1 to 2^46 elements, invalid calls interleaved); non-trivial: >=3 lists and at least "
                     "one first bucket overfull so that lists must move";
    checks[0].body           = alloc_body;
    checks[0].quick_cases    = 250000;
    checks[0].thorough_cases = 6000000;
    checks[1].property       = "C03";
    checks[1].name           = "table_size";
    checks[1].rule           = "random (elements, bucket capacity, epsilon); non-trivial: more than one bucket";
    checks[1].body           = size_body;
    checks[1].quick_cases    = 100000;
    checks[1].thorough_cases = 1000000;
    checks[2].property       = "C03";
    checks[2].name           = "large";
    checks[2].rule           = "250 to 66000 buckets and up to 150000 lists; non-trivial: a bucket overflows";
    checks[2].body           = alloc_large_body;
    checks[2].quick_cases    = 120;
    checks[2].thorough_cases = 20000;
    checks[2].case_timeout_s = 120;
    return pbt::Engine(argc, argv, checks).run();
}
