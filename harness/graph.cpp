// C01: max-flow of the Tethys graph is a feasible flow of maximum value
// C02: the parallel computation is equivalent to the sequential one
#include "pbt.hpp"
#define CHAOS_WRAP
#include "chaos.hpp"
#include "refflow.hpp"

#include "tethys/details/tethys_graph.hpp"

#include <sse/schemes/utils/logger.hpp>
#include <sse/schemes/utils/thread_pool.hpp>

#include <limits>
#include <numeric>
#include <queue>

using namespace sse::tethys::details;
using pbt::Ctx;

namespace {

struct GEdge
{
    int    kind; // 0 inner, 1 from source, 2 to sink
    size_t a, b, cap;
};
struct GDesc
{
    size_t             n;
    std::vector<GEdge> edges;
};

uint64_t ref_maxflow(const GDesc& d)
{
    int S = static_cast<int>(d.n), T = S + 1;
    RefFlow r(T + 1);
    for (auto& e : d.edges) {
        int a = e.kind == 1 ? S : static_cast<int>(e.a);
        int b = e.kind == 2 ? T : static_cast<int>(e.b);
        r.add(a, b, static_cast<int64_t>(e.cap));
    }
    return static_cast<uint64_t>(r.flow(S, T));
}

GDesc gen_graph(Ctx& c, size_t max_n, size_t max_e, unsigned comps = 3)
{
    GDesc  d;
    size_t shape = c.weighted({4, 3, comps, 2});
    d.n          = c.in(1, max_n);
    uint64_t scale = 1;
    if (c.chance(1, 6)) {
        scale = 1ULL << c.in(1, 34);
    }
    uint64_t max_cap = c.flip() ? 3 : (c.flip() ? 20 : 600);
    auto     cap     = [&] { return c.edgy(0, max_cap) * scale; };
    auto     vtx     = [&] { return c.u(d.n - 1); };
    if (shape == 0) { // anything goes
        size_t m = c.u(max_e);
        for (size_t i = 0; i < m; ++i) {
            int k = static_cast<int>(c.weighted({5, 2, 2}));
            d.edges.push_back({k, vtx(), vtx(), cap()});
        }
    } else if (shape == 1) { // as the allocator builds: lists between buckets
        size_t page = c.in(1, 40);
        size_t m    = c.u(max_e);
        std::vector<int64_t> load(d.n, 0);
        for (size_t i = 0; i < m; ++i) {
            size_t a = vtx(), b = vtx(), l = c.edgy(0, page);
            d.edges.push_back({0, a, b, l * scale});
            load[a] += static_cast<int64_t>(l);
        }
        for (size_t v = 0; v < d.n; ++v) {
            if (load[v] > static_cast<int64_t>(page)) {
                d.edges.push_back(
                    {1, 0, v, (static_cast<size_t>(load[v]) - page) * scale});
            } else if (load[v] < static_cast<int64_t>(page)) {
                d.edges.push_back(
                    {2, v, 0, (page - static_cast<size_t>(load[v])) * scale});
            }
        }
    } else if (shape == 2) { // several components
        size_t k  = c.in(1, 5);
        size_t m  = c.u(max_e);
        size_t sz = std::max<size_t>(1, d.n / k);
        for (size_t i = 0; i < m; ++i) {
            size_t base = (c.u(k - 1) * sz) % d.n;
            size_t lim  = std::min(sz, d.n - base);
            size_t a = base + c.u(lim - 1), b = base + c.u(lim - 1);
            int    kk = static_cast<int>(c.weighted({4, 3, 3}));
            d.edges.push_back({kk, a, b, cap()});
        }
    } else { // long chains with backward edges: augmenting paths must undo flow
        for (size_t v = 0; v + 1 < d.n && d.edges.size() < max_e; ++v) {
            d.edges.push_back({0, v, v + 1, cap()});
            if (c.chance(1, 3)) {
                d.edges.push_back({0, v + 1, v, cap()});
            }
            if (c.chance(1, 4)) {
                d.edges.push_back({0, v, vtx(), cap()});
            }
        }
        d.edges.push_back({1, 0, 0, cap()});
        d.edges.push_back({2, d.n - 1, 0, cap()});
        size_t extra = c.u(4);
        for (size_t i = 0; i < extra; ++i) {
            d.edges.push_back({static_cast<int>(c.in(1, 2)), vtx(), vtx(), cap()});
        }
    }
    return d;
}

// graphs with more vertices, edges, components or edges of one vertex than fit in 8 or 16 bits;
// drawn from one seed
GDesc gen_large(Ctx& c, bool sequential)
{
    GDesc    d;
    size_t   size  = c.weighted({4, 3, 2});
    d.n            = size == 0 ? c.edgy(250, 300) : size == 1 ? c.edgy(400, 3000) : c.edgy(65500, 65700);
    size_t   shape = c.u(3);
    uint64_t seed  = c.seed64();
    size_t   m     = d.n * c.in(1, 3);
    uint64_t page  = c.edgy(1, 512);
    auto     rnd   = [&](uint64_t max) { return pbt::splitmix(seed) % (max + 1); };
    auto     vtx   = [&] { return rnd(d.n - 1); };
    size_t   ends  = size == 2 ? 1 + c.u(60) : d.n;
    c.note("large graph: %zu vertices, shape %zu, page %" PRIu64, d.n, shape, page);
    if (shape == 0) { // lists between the buckets
        std::vector<uint64_t> load(d.n, 0);
        for (size_t i = 0; i < m; ++i) {
            size_t a = vtx(), b = vtx(), l = rnd(page);
            d.edges.push_back({0, a, b, l});
            load[a] += l;
        }
        size_t src = 0, snk = 0;
        for (size_t v = 0; v < d.n; ++v) {
            if (load[v] > page && src++ < ends) {
                d.edges.push_back({1, 0, v, load[v] - page});
            } else if (load[v] < page && snk++ < 40 * ends) {
                d.edges.push_back({2, v, 0, page - load[v]});
            }
        }
    } else if (shape == 1) { // small components
        size_t k = 2 + c.u(6);
        for (size_t v = 0; v + k <= d.n; v += k) {
            for (size_t j = 0; j + 1 < k; ++j) {
                d.edges.push_back({0, v + j, v + j + 1, rnd(page)});
            }
            if (rnd(99) < (size == 2 && sequential ? 3 : 70)) {
                d.edges.push_back({1, 0, v, rnd(page)});
                d.edges.push_back({2, v + k - 1, 0, rnd(page)});
            }
        }
    } else if (shape == 2) { // stars: vertices of high degree
        size_t hub = vtx(), hub2 = vtx();
        for (size_t v = 0; v < d.n; ++v) {
            d.edges.push_back({0, hub, v, rnd(page)});
            d.edges.push_back({0, v, hub2, rnd(page)});
        }
        d.edges.push_back({1, 0, hub, page * (1 + rnd(d.n))});
        for (size_t j = 0; j < std::min<size_t>(ends, 50); ++j) {
            d.edges.push_back({2, vtx(), 0, rnd(page)});
        }
        d.edges.push_back({2, hub2, 0, rnd(page * 20)});
    } else { // a long path with detours
        for (size_t v = 0; v + 1 < d.n; ++v) {
            d.edges.push_back({0, v, v + 1, 1 + rnd(page)});
            if (rnd(3) == 0) {
                d.edges.push_back({0, v + 1, v, rnd(page)});
            }
            if (rnd(3) == 0) {
                d.edges.push_back({0, v, std::min<size_t>(d.n - 1, v + 1 + rnd(20)), rnd(page)});
            }
        }
        for (size_t j = 0; j < std::min<size_t>(ends, 20); ++j) {
            d.edges.push_back({1, 0, j == 0 ? 0 : vtx(), rnd(page)});
            d.edges.push_back({2, j == 0 ? d.n - 1 : vtx(), 0, rnd(page)});
        }
    }
    return d;
}

void note_graph(Ctx& c, const GDesc& d)
{
    c.note("graph of %zu vertices, %zu edges", d.n, d.edges.size());
    for (size_t i = 0; i < d.edges.size() && i < 60; ++i) {
        auto& e = d.edges[i];
        if (e.kind == 0) {
            c.note("  e%zu: %zu -> %zu cap %zu", i, e.a, e.b, e.cap);
        } else if (e.kind == 1) {
            c.note("  e%zu: source -> %zu cap %zu", i, e.b, e.cap);
        } else {
            c.note("  e%zu: %zu -> sink cap %zu", i, e.a, e.cap);
        }
    }
}

std::vector<EdgePtr> build(TethysGraph& g, const GDesc& d)
{
    std::vector<EdgePtr> ptrs;
    for (size_t i = 0; i < d.edges.size(); ++i) {
        auto& e = d.edges[i];
        if (e.kind == 0) {
            ptrs.push_back(g.add_edge(i, e.cap, e.a, e.b));
        } else if (e.kind == 1) {
            ptrs.push_back(g.add_edge_from_source(i, e.cap, e.b));
        } else {
            ptrs.push_back(g.add_edge_to_sink(i, e.cap, e.a));
        }
    }
    return ptrs;
}

template<class E, class F>
void expect_throw(Ctx& c, const char* what, F f)
{
    bool ok = false;
    try {
        f();
    } catch (const E&) {
        ok = true;
    }
    PBT_ASSERT(c, ok, "%s did not throw the documented exception", what);
}

void check_flow(Ctx& c, const TethysGraph& g, const GDesc& d, const std::vector<EdgePtr>& p)
{
    std::vector<int64_t> net(d.n, 0);
    std::vector<uint64_t> in_f(d.n, 0), out_f(d.n, 0), in_c(d.n, 0), out_c(d.n, 0);
    uint64_t             src = 0, snk = 0, src_cap = 0, snk_cap = 0;
    for (size_t i = 0; i < d.edges.size(); ++i) {
        auto&    e = d.edges[i];
        uint64_t f = g.get_edge_flow(p[i]);
        PBT_ASSERT(c,
                   g.get_edge_capacity(p[i]) == e.cap,
                   "edge %zu: capacity %zu, was created with %zu",
                   i,
                   g.get_edge_capacity(p[i]),
                   e.cap);
        PBT_ASSERT(
            c, f <= e.cap, "edge %zu carries %" PRIu64 " > capacity %zu", i, f, e.cap);
        PBT_ASSERT(c,
                   g.get_edge(p[i]).value_index == i,
                   "edge %zu lost its value index",
                   i);
        if (e.kind != 1) {
            net[e.a] -= static_cast<int64_t>(f);
            out_f[e.a] += f;
            out_c[e.a] += e.cap;
        } else {
            src += f;
            src_cap += e.cap;
        }
        if (e.kind != 2) {
            net[e.b] += static_cast<int64_t>(f);
            in_f[e.b] += f;
            in_c[e.b] += e.cap;
        } else {
            snk += f;
            snk_cap += e.cap;
        }
    }
    for (size_t v = 0; v < d.n; ++v) {
        PBT_ASSERT(c,
                   net[v] == 0,
                   "vertex %zu: inflow - outflow = %" PRId64,
                   v,
                   net[v]);
        PBT_ASSERT(c,
                   g.get_vertex_in_flow(VertexPtr(v)) == in_f[v]
                       && g.get_vertex_out_flow(VertexPtr(v)) == out_f[v]
                       && g.get_vertex_in_capacity(VertexPtr(v)) == in_c[v]
                       && g.get_vertex_out_capacity(VertexPtr(v)) == out_c[v],
                   "vertex %zu: reported flows/capacities disagree with its edges",
                   v);
    }
    PBT_ASSERT(c, src == snk, "source emits %" PRIu64 ", sink gets %" PRIu64, src, snk);
    PBT_ASSERT(c, g.get_flow() == src, "get_flow %zu, source emits %" PRIu64, g.get_flow(), src);
    PBT_ASSERT(c,
               g.get_vertex_out_flow(kSourcePtr) == src
                   && g.get_vertex_in_flow(kSinkPtr) == snk
                   && g.get_vertex_out_capacity(kSourcePtr) == src_cap
                   && g.get_vertex_in_capacity(kSinkPtr) == snk_cap,
               "source/sink totals are wrong");
    uint64_t ref = ref_maxflow(d);
    PBT_ASSERT(c,
               src == ref,
               "flow value %" PRIu64 ", the maximum is %" PRIu64,
               src,
               ref);
}

void guards_building(Ctx& c, TethysGraph& g, const GDesc& d)
{
    expect_throw<std::out_of_range>(c, "add_edge(bad start)", [&] {
        g.add_edge(0, 1, d.n + c.u(2), 0);
    });
    expect_throw<std::out_of_range>(c, "add_edge(bad end)", [&] {
        g.add_edge(0, 1, 0, d.n + c.u(2));
    });
    expect_throw<std::out_of_range>(c, "add_edge_from_source(bad end)", [&] {
        g.add_edge_from_source(0, 1, d.n + c.u(2));
    });
    expect_throw<std::out_of_range>(c, "add_edge_to_sink(bad start)", [&] {
        g.add_edge_to_sink(0, 1, d.n + c.u(2));
    });
    expect_throw<std::invalid_argument>(c, "transform before maxflow", [&] {
        g.transform_residual_to_flow();
    });
    expect_throw<std::invalid_argument>(c, "get_flow before maxflow", [&] { (void)g.get_flow(); });
}
void guards_residual(Ctx& c, TethysGraph& g)
{
    expect_throw<std::invalid_argument>(
        c, "add_edge after maxflow", [&] { g.add_edge(0, 1, 0, 0); });
    expect_throw<std::invalid_argument>(
        c, "add_edge_from_source after maxflow", [&] { g.add_edge_from_source(0, 1, 0); });
    expect_throw<std::invalid_argument>(
        c, "add_edge_to_sink after maxflow", [&] { g.add_edge_to_sink(0, 1, 0); });
    expect_throw<std::invalid_argument>(
        c, "second maxflow", [&] { g.compute_residual_maxflow(); });
    expect_throw<std::invalid_argument>(
        c, "get_flow on the residual graph", [&] { (void)g.get_flow(); });
    expect_throw<std::invalid_argument>(c, "get_vertex_in_flow on the residual graph", [&] {
        (void)g.get_vertex_in_flow(VertexPtr(0));
    });
}

void seq_run(Ctx& c, bool large)
{
    bool  big = !large && c.chance(1, 10);
    GDesc d   = large ? gen_large(c, true) : big ? gen_graph(c, 120, 400) : gen_graph(c, 14, 40);
    note_graph(c, d);
    TethysGraph g(d.n);
    auto        p = build(g, d);
    bool        gd = c.chance(1, 5);
    if (gd) {
        guards_building(c, g, d);
    }
    // a path reported before any flow was pushed is a real residual path
    size_t   pf   = 77;
    auto     path = g.find_source_sink_path(0, &pf);
    uint64_t ref  = ref_maxflow(d);
    PBT_ASSERT(c, path.empty() == (ref == 0), "path reported iff the sink is reachable");
    if (!path.empty()) {
        size_t    mn  = SIZE_MAX;
        VertexPtr cur = kSourcePtr;
        for (auto ep : path) {
            const Edge& e = g.get_edge(ep);
            PBT_ASSERT(c, !ep.is_reciprocal && e.start == cur, "the path is not connected");
            cur = e.end;
            mn  = std::min(mn, e.capacity);
        }
        PBT_ASSERT(c, cur == kSinkPtr, "the path does not end at the sink");
        PBT_ASSERT(c, mn == pf, "path flow %zu, bottleneck %zu", pf, mn);
    } else {
        PBT_ASSERT(c, pf == 0, "no path but path flow %zu", pf);
    }

    g.compute_residual_maxflow();
    // residual invariants
    for (size_t i = 0; i < p.size(); ++i) {
        const Edge& e = g.get_edge(p[i]);
        PBT_ASSERT(c,
                   e.flow + e.rec_flow == e.capacity,
                   "edge %zu: residual %zu + %zu != capacity %zu",
                   i,
                   e.flow,
                   e.rec_flow,
                   e.capacity);
    }
    PBT_ASSERT(c,
               g.find_source_sink_path(0, nullptr).empty(),
               "an augmenting path is left after the max-flow computation");
    if (gd) {
        guards_residual(c, g);
    }
    g.transform_residual_to_flow();
    if (gd) {
        expect_throw<std::invalid_argument>(
            c, "second transform", [&] { g.transform_residual_to_flow(); });
        expect_throw<std::invalid_argument>(
            c, "add_edge at the end", [&] { g.add_edge(0, 1, 0, 0); });
    }
    check_flow(c, g, d, p);
    c.nontrivial(ref > 0 && d.edges.size() >= 3);
    c.label(ref > 0 ? "flow>0" : "flow=0");
    c.label(large ? "large" : big ? "big" : "small");
}
void seq_body(Ctx& c)
{
    seq_run(c, false);
}
void seq_large_body(Ctx& c)
{
    seq_run(c, true);
}

void par_run(Ctx& c, bool large)
{
    bool  big = !large && c.chance(1, 6);
    GDesc d   = large ? gen_large(c, false) : big ? gen_graph(c, 200, 500, 6) : gen_graph(c, 24, 60, 6);
    note_graph(c, d);
    size_t threads = c.edgy(1, 8);
    c.note("threads: %zu", threads);
    uint64_t    ref = ref_maxflow(d);
    TethysGraph seq(d.n);
    auto        ps = build(seq, d);
    bool        both = d.n < 60000; // the sequential solver is quadratic on many components
    if (both) {
        seq.compute_residual_maxflow();
        seq.transform_residual_to_flow();
    }

    TethysGraph par(d.n);
    auto        pp = build(par, d);
    uint32_t level = static_cast<uint32_t>(c.u(2));
    chaos::start(c.seed64(), level);
    {
        ThreadPool pool(static_cast<uint8_t>(threads));
        par.parallel_compute_residual_maxflow(pool);
        chaos::stop();
    }
    for (size_t i = 0; i < pp.size(); ++i) {
        const Edge& e = par.get_edge(pp[i]);
        PBT_ASSERT(c,
                   e.flow + e.rec_flow == e.capacity,
                   "edge %zu: residual %zu + %zu != capacity %zu",
                   i,
                   e.flow,
                   e.rec_flow,
                   e.capacity);
    }
    if (c.chance(1, 5)) {
        guards_residual(c, par);
        ThreadPool pool(2);
        expect_throw<std::invalid_argument>(
            c, "second parallel maxflow", [&] { par.parallel_compute_residual_maxflow(pool); });
    }
    par.transform_residual_to_flow();
    check_flow(c, par, d, pp);
    PBT_ASSERT(c,
               !both || par.get_flow() == seq.get_flow(),
               "parallel flow %zu, sequential flow %zu",
               par.get_flow(),
               both ? seq.get_flow() : 0);
    // number of components with an edge inside
    std::vector<size_t> uf(d.n);
    std::iota(uf.begin(), uf.end(), 0);
    auto find = [&](size_t x) {
        while (uf[x] != x) {
            x = uf[x] = uf[uf[x]];
        }
        return x;
    };
    for (auto& e : d.edges) {
        if (e.kind == 0) {
            uf[find(e.a)] = find(e.b);
        }
    }
    std::map<size_t, size_t> sizes;
    for (size_t v = 0; v < d.n; ++v) {
        sizes[find(v)]++;
    }
    size_t comps = 0;
    for (auto& s : sizes) {
        comps += s.second > 1;
    }
    c.label(comps >= 2 ? "components>=2" : "components<2");
    c.label(ref > 0 ? "flow>0" : "flow=0");
    c.nontrivial(ref > 0 && comps >= 2 && threads >= 2);
}
void par_body(Ctx& c)
{
    par_run(c, false);
}
void par_large_body(Ctx& c)
{
    par_run(c, true);
}

} // namespace

int main(int argc, char** argv)
{
    sse::logger::set_logging_level(spdlog::level::err);
    std::cout.rdbuf(nullptr);
    std::vector<pbt::Check> checks(4);
    checks[0].property       = "C01";
    checks[0].name           = "maxflow";
    checks[0].rule           = "random capacitated graphs (arbitrary / allocator-shaped / "
                     "multi-component / chains with back edges, self loops, parallel "
                     "edges, zero and scaled capacities) against an independent Dinic; "
                     "non-trivial: >=3 edges and a positive maximum flow";
    checks[0].body           = seq_body;
    checks[0].quick_cases    = 800000;
    checks[0].thorough_cases = 20000000;
    checks[1].property       = "C02";
    checks[1].name           = "parallel";
    checks[1].rule           = "same graphs, solved with thread pools of 1..8 threads and "
                     "compared with the sequential solver and Dinic; non-trivial: "
                     ">=2 components with inner edges, positive flow, >=2 threads";
    checks[1].body           = par_body;
    checks[1].quick_cases    = 200000;
    checks[1].thorough_cases = 4000000;
    checks[1].scheduled      = true;
    const char* kLargeRule   = "graphs of 250 to 65700 vertices with more vertices, edges, components or edges of a "
                             "vertex than fit in 8 or 16 bits; non-trivial: a positive flow";
    checks[2].property       = "C01";
    checks[2].name           = "large";
    checks[2].rule           = kLargeRule;
    checks[2].body           = seq_large_body;
    checks[2].quick_cases    = 160;
    checks[2].thorough_cases = 20000;
    checks[2].case_timeout_s = 120;
    checks[3].property       = "C02";
    checks[3].name           = "large";
    checks[3].rule           = kLargeRule;
    checks[3].body           = par_large_body;
    checks[3].quick_cases    = 120;
    checks[3].thorough_cases = 10000;
    checks[3].case_timeout_s = 120;
    checks[3].scheduled      = true;
    return pbt::Engine(argc, argv, checks).run();
}
