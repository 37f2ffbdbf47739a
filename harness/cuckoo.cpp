// C14: a cuckoo table returns exactly what was stored in it
// C15: Pluto searches return exactly the indexed documents
#include "pbt.hpp"
#include "fakeaio.hpp"

#include <sse/schemes/oceanus/cuckoo.hpp>
#include <sse/schemes/oceanus/oceanus.hpp>
#include <sse/schemes/tethys/core_types.hpp>
#include <sse/schemes/pluto/pluto_builder.hpp>
#include <sse/schemes/pluto/pluto_client.hpp>
#include <sse/schemes/pluto/pluto_server.hpp>
#include <sse/schemes/pluto/rocksdb_store.hpp>

#include <condition_variable>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>

#if defined(__SANITIZE_ADDRESS__)
#define SUFFIX "_asan"
#define DIV 8
#else
#define SUFFIX ""
#define DIV 1
#endif

using pbt::Ctx;
using namespace sse;
using Key16 = oceanus::key_type;

namespace {

// destroying a real AIO context takes the kernel 10 ms and more: most cases use
// the stand-in, with completions in any order
void start_kernel(Ctx& c, bool async)
{
    fakeaio::Config cfg;
    cfg.fake = !async || !c.chance(1, 20);
    if (async) {
        cfg.delay_us = static_cast<unsigned>(c.u(2) * 20);
        cfg.eagain   = c.chance(1, 4) ? 40 : 0;
        cfg.partial  = c.chance(1, 4) ? 40 : 0;
    }
    fakeaio::kernel().start(cfg, c.seed64());
}

template<class E, class F>
void expect_throw(Ctx& c, const char* what, F f)
{
    bool ok = false;
    try {
        f();
    } catch (const E&) {
        ok = true;
    }
    PBT_ASSERT(c, ok, "%s was not refused with an exception", what);
}

Key16 make_key(uint64_t a, uint64_t b)
{
    Key16 k;
    memcpy(k.data(), &a, 8);
    memcpy(k.data() + 8, &b, 8);
    return k;
}
uint64_t half(const Key16& k, int i)
{
    uint64_t v;
    memcpy(&v, k.data() + 8 * i, 8);
    return v;
}

// can every key get a cell of its own?  (one cell per table, `size` cells each)
bool feasible(const std::vector<Key16>& keys, size_t size)
{
    std::vector<size_t> parent(2 * size), nv(2 * size, 1), ne(2 * size, 0);
    for (size_t i = 0; i < parent.size(); ++i) {
        parent[i] = i;
    }
    auto find = [&](size_t x) {
        while (parent[x] != x) {
            x = parent[x] = parent[parent[x]];
        }
        return x;
    };
    for (const auto& k : keys) {
        size_t a = find(half(k, 0) % size), b = find(size + half(k, 1) % size);
        if (a != b) {
            parent[b] = a;
            nv[a] += nv[b];
            ne[a] += ne[b];
        }
        ++ne[a];
        if (ne[a] > nv[a]) {
            return false;
        }
    }
    return true;
}

struct KeyGen
{
    int    profile;
    size_t size;
    KeyGen(Ctx& c, size_t s) : profile(static_cast<int>(c.weighted({6, 3, 2, 1}))), size(s) {}
    Key16 next(Ctx& c) const
    {
        switch (profile) {
        case 0: return make_key(c.u(~0ULL), c.u(~0ULL));
        case 1: return make_key(c.u(size - 1) + c.u(3) * size, c.u(size - 1) + c.u(3) * size);
        case 2: // crowded first table
            return make_key(c.u(1) + c.u(1000) * size, c.u(~0ULL));
        default: {
            Key16 k = make_key(c.edgy(0, ~0ULL), c.edgy(0, ~0ULL));
            return k;
        }
        }
    }
};

// ------------------------------------------------------------------------------
void allocator_case(Ctx& c, size_t size, size_t n, size_t depth, std::vector<Key16> first);
void allocator_body(Ctx& c)
{
    size_t size  = 1 + c.u(c.flip() ? 8 : 60);
    size_t n     = 1 + c.u(2 * size + 4);
    size_t depth = c.flip() ? 4 * n + 8 : c.u(6);
    allocator_case(c, size, n, depth, {});
}

// every insertion of the last part of the sequence moves a long chain of elements
std::vector<Key16> chain_keys(Ctx& c, size_t size)
{
    std::vector<Key16> r;
    size_t             len = c.edgy(1, size - 1);
    uint64_t           mul = c.u(3);
    auto               k   = [&](size_t a, size_t b) { r.push_back(make_key(a + mul * size, b + mul * size)); };
    for (size_t j = 0; j < len; ++j) {
        k(j + 1, j);     // goes to its second cell ...
        k(j + 1, j + 1); // ... when this one comes
    }
    k(0, 0);
    k(0, c.u(size - 1));
    return r;
}

void large_allocator_body(Ctx& c)
{
    size_t             size = c.chance(1, 8) ? c.edgy(65530, 66000) : c.edgy(250, 1200);
    size_t             n;
    std::vector<Key16> first;
    if (c.flip()) {
        first = chain_keys(c, size);
        n     = first.size() + c.u(2);
        c.label("chain");
    } else {
        n = c.flip() ? size - c.u(size / 10) : c.u(2 * size + 4);
    }
    KeyGen gen(c, size);
    while (first.size() < n) {
        first.push_back(gen.next(c));
    }
    // the search of a place for an element that has none takes as many steps as allowed
    bool f = feasible(first, size);
    c.label(f ? "fits" : "does not fit");
    allocator_case(c, size, n, f || n < 1000 ? 4 * n + 8 : 200, std::move(first));
}

void allocator_case(Ctx& c, size_t size, size_t n, size_t depth, std::vector<Key16> first)
{
    using oceanus::details::CuckooAllocator;
    KeyGen gen(c, size);
    CuckooAllocator    alloc(size, depth);
    std::vector<Key16> keys;
    std::set<size_t>   spilled;
    if (c.chance(1, 4)) {
        expect_throw<std::invalid_argument>(c, "inserting the index reserved for empty cells", [&] {
            alloc.insert(oceanus::CuckooKey(make_key(1, 2)), ~0UL);
        });
    }
    for (size_t i = 0; i < n; ++i) {
        Key16 k = i < first.size() ? first[i] : gen.next(c);
        keys.push_back(k);
        size_t s = alloc.insert(oceanus::CuckooKey(k), i);
        if (!CuckooAllocator::is_empty_placeholder(s)) {
            PBT_ASSERT(c, s <= i, "element %zu was never inserted but is evicted", s);
            PBT_ASSERT(c, spilled.insert(s).second, "element %zu is evicted twice", s);
        }
    }
    PBT_ASSERT(c, alloc.get_cuckoo_table_size() == size, "the table has another size");
    std::set<size_t> placed;
    for (int t = 0; t < 2; ++t) {
        auto   b = t ? alloc.table_1_begin() : alloc.table_0_begin();
        auto   e = t ? alloc.table_1_end() : alloc.table_0_end();
        size_t loc = 0;
        for (; b != e; ++b, ++loc) {
            if (CuckooAllocator::is_empty_placeholder(b->value_index)) {
                continue;
            }
            size_t v = b->value_index;
            PBT_ASSERT(c, v < n, "element %zu was never inserted but is in the table", v);
            PBT_ASSERT(c, placed.insert(v).second, "element %zu is in two cells", v);
            PBT_ASSERT(c, half(keys[v], t) % size == loc, "element %zu is in cell %zu of table %d instead of %zu", v, loc, t,
                       static_cast<size_t>(half(keys[v], t) % size));
            PBT_ASSERT(c, memcmp(b->key.h, keys[v].data(), 16) == 0, "the key of element %zu is lost", v);
            PBT_ASSERT(c, !spilled.count(v), "element %zu is reported as evicted but is in the table", v);
        }
        PBT_ASSERT(c, loc == size, "table %d has %zu cells instead of %zu", t, loc, size);
    }
    PBT_ASSERT(c, placed.size() + spilled.size() == n, "%zu elements placed, %zu evicted, %zu inserted", placed.size(), spilled.size(), n);
    bool f = feasible(keys, size);
    PBT_ASSERT(c, !(f && depth >= 4 * n + 4) || spilled.empty(), "%zu elements are evicted although all of them fit (depth %zu)", spilled.size(), depth);
    PBT_ASSERT(c, f || !spilled.empty(), "all elements placed although they cannot be");
    c.label(spilled.empty() ? "no spill" : "spill");
    c.label(f ? "feasible" : "infeasible");
    c.note("2x%zu cells, %zu elements, depth %zu, %zu evicted", size, n, depth, spilled.size());
    c.nontrivial(n >= 3);
}

// ------------------------------------------------------------------------------
struct KeySer
{
    static constexpr size_t serialization_length() { return 16; }
    void serialize(const Key16& k, uint8_t* b) { memcpy(b, k.data(), 16); }
};
template<size_t VS>
struct ValSer
{
    using value = std::array<uint8_t, VS>;
    static constexpr size_t serialization_length() { return VS; }
    void serialize(const value& v, uint8_t* b) { memcpy(b, v.data(), VS); }
    value deserialize(const uint8_t* b)
    {
        value v;
        memcpy(v.data(), b, VS);
        return v;
    }
};

// the plain cuckoo table
template<size_t PAGE>
struct RawTable
{
    static constexpr size_t VS = PAGE - 16;
    using V       = std::array<uint8_t, VS>;
    using Builder = oceanus::CuckooBuilder<PAGE, Key16, V, KeySer, ValSer<VS>, oceanus::OceanusCuckooHasher>;
    using Table   = oceanus::CuckooHashTable<PAGE, Key16, V, KeySer, ValSer<VS>, oceanus::OceanusCuckooHasher>;
    static constexpr bool kMovable = true;

    static std::unique_ptr<Builder> builder(const std::string& p, size_t n, double eps, size_t depth)
    {
        oceanus::CuckooBuilderParam q;
        q.value_file_path   = p + ".tmp";
        q.cuckoo_table_path = p;
        q.max_n_elements    = n;
        q.epsilon           = eps;
        q.max_search_depth  = depth;
        return std::unique_ptr<Builder>(new Builder(q));
    }
    static std::unique_ptr<Builder> move(std::unique_ptr<Builder> b)
    {
        return std::unique_ptr<Builder>(new Builder(std::move(*b)));
    }
    static void direct(Table& t, bool f) { t.use_direct_IO(f); }
};
// Oceanus on top of it
template<size_t PAGE>
struct OceanusTable
{
    using V       = oceanus::data_type<PAGE>;
    using Builder = oceanus::OceanusBuilder<PAGE>;
    using Table   = oceanus::Oceanus<PAGE>;
    static constexpr bool kMovable = false;

    static std::unique_ptr<Builder> builder(const std::string& p, size_t n, double eps, size_t depth)
    {
        return std::unique_ptr<Builder>(new Builder(p, n, eps, depth));
    }
    static std::unique_ptr<Builder> move(std::unique_ptr<Builder> b) { return b; }
    static void direct(Table&, bool) {}
};

template<size_t PAGE, class S>
void table_case(Ctx& c, size_t large = 0)
{
    using V = typename S::V;
    start_kernel(c, PAGE % 4096 == 0);
    size_t      max_n = large ? large : 1 + c.u(c.flip() ? 6 : 40);
    double      eps   = c.u(8) * 0.1;
    size_t      size  = oceanus::details::cuckoo_table_size(max_n, eps);
    size_t      n     = std::vector<size_t>{max_n / 2, max_n, max_n + max_n / 2, 2 * size, c.u(2 * size + 2)}[c.weighted({2, 4, 1, 1, 2})];
    size_t      depth = c.weighted({4, 1, 1}) == 0 ? 4 * n + 200 : c.flip() ? 200 : c.u(5);
    KeyGen      gen(c, size);
    std::string path = c.dir() + "/table";
    std::map<Key16, V> model;
    std::vector<Key16> keys;
    size_t             tries = 0;
    std::vector<Key16> pre;
    if (large) {
        std::set<Key16> distinct;
        while (pre.size() < n && ++tries < 4 * n + 10) {
            Key16 k = gen.next(c);
            if (distinct.insert(k).second) {
                pre.push_back(k);
            }
        }
        depth = feasible(pre, size) || n < 1000 ? 4 * n + 8 : 200;
        n     = pre.size();
        tries = 0;
    }
    auto b = S::builder(path, max_n, eps, depth);
    bool               moved = false;
    while (keys.size() < n && ++tries < (large ? n + 1 : 4 * n + 10)) {
        Key16 k = large ? pre[tries - 1] : gen.next(c);
        if (model.count(k) || k == make_key(~0ULL, ~0ULL)) {
            continue; // an all-ones key marks an empty cell
        }
        if (S::kMovable && c.chance(1, large ? 2000 : 30)) {
            b     = S::move(std::move(b));
            moved = true;
        }
        V v;
        if (c.flip()) {
            uint64_t s = c.u(~0ULL);
            for (auto& x : v) {
                x = static_cast<typename V::value_type>(pbt::splitmix(s));
            }
        } else {
            v.fill(static_cast<typename V::value_type>(c.flip() ? ~0ULL : c.u(1)));
        }
        b->insert(k, v);
        keys.push_back(k);
        model[k] = v;
    }
    bool fits = feasible(keys, size);
    bool must = fits && depth >= 4 * n + 4;
    bool built = true;
    int  how   = static_cast<int>(c.weighted({6, 3}));
    if (large) {
        c.label(size > 65536 ? "over 65536 cells" : "over 256 cells");
    }
    if (how == 0) {
        std::string err;
        try {
            b->commit();
        } catch (const std::exception& e) {
            built = false;
            err   = e.what();
        }
        PBT_ASSERT(c, built || !must, "the build of %zu elements that fit is refused: %s", keys.size(), err.c_str());
        PBT_ASSERT(c, !built || fits, "%zu elements that cannot all be stored in 2x%zu cells are committed without an error", keys.size(), size);
        if (built && c.flip()) {
            expect_throw<std::runtime_error>(c, "inserting after the commit", [&] { b->insert(make_key(1, 2), V()); });
        }
        if (built && c.flip()) {
            b->commit(); // changes nothing
        }
    }
    b.reset();
    struct stat st;
    bool        there = stat(path.c_str(), &st) == 0;
    PBT_ASSERT(c, !built || how == 1 || there, "no table was written");
    std::unique_ptr<typename S::Table> t;
    bool                               open_ok = true;
    size_t                             n_async = 0;
    if (!there || !built || (how == 1 && !must)) {
        // a table that was not completely built must not be usable
        try {
            t.reset(new typename S::Table(path));
        } catch (const std::exception&) {
            open_ok = false;
        }
        PBT_ASSERT(c, !must || (how == 0 && !built) || open_ok, "the table of a destroyed builder cannot be opened");
        PBT_ASSERT(c, built || !open_ok, "the table of a failed build can be opened");
        if (how == 1 && open_ok) {
            PBT_ASSERT(c, fits, "elements that cannot all be stored were stored without an error");
        }
    } else {
        t.reset(new typename S::Table(path));
    }
    PBT_ASSERT(c, !open_ok || stat((path + ".tmp").c_str(), &st) != 0, "the temporary file is left behind");
    if (open_ok) {
        std::vector<Key16> probe = keys;
        for (size_t i = 0; i < 12; ++i) {
            Key16 k = gen.next(c);
            probe.push_back(k);
            if (!keys.empty()) {
                Key16 o = c.pick(keys);
                switch (c.u(3)) {
                case 0: o[c.u(15)] ^= static_cast<uint8_t>(1U << c.u(7)); break; // one bit away
                case 1: o = make_key(half(o, 0) + size, half(o, 1)); break;      // same cells
                case 2: o = make_key(half(o, 0), half(o, 1) + size); break;
                default: o = make_key(half(o, 1), half(o, 0)); break;
                }
                probe.push_back(o);
            }
        }
        probe.erase(std::remove(probe.begin(), probe.end(), make_key(~0ULL, ~0ULL)), probe.end());
        for (int round = 0; round < 2; ++round) {
            if (round == 1) {
                if (!c.flip()) {
                    break;
                }
                t.reset();
                t.reset(new typename S::Table(path));
            }
            if (PAGE % 4096 == 0 && c.flip()) {
                S::direct(*t, true);
            }
            for (const auto& k : probe) {
                auto it    = model.find(k);
                bool found = true;
                V    v;
                try {
                    v = t->get(k);
                } catch (const std::out_of_range&) {
                    found = false;
                }
                PBT_ASSERT(c, found == (it != model.end()), "key (%" PRIx64 ",%" PRIx64 ") is %s but %s", half(k, 0), half(k, 1),
                           it != model.end() ? "stored" : "absent", found ? "found" : "not found");
                PBT_ASSERT(c, !found || v == it->second, "key (%" PRIx64 ",%" PRIx64 ") has the wrong value", half(k, 0), half(k, 1));
            }
            if (PAGE % 4096 == 0 && !probe.empty()) {
                struct Res
                {
                    Key16            k;
                    std::atomic<int> calls{0};
                    bool             found{false};
                    V                v;
                };
                std::vector<std::unique_ptr<Res>> res;
                size_t                            m = 1 + c.u(30);
                for (size_t i = 0; i < m; ++i) {
                    res.emplace_back(new Res);
                    res.back()->k = c.pick(probe);
                }
                std::mutex              mu;
                std::condition_variable cv;
                size_t                  done = 0;
                for (auto& rp : res) {
                    Res* r = rp.get();
                    t->async_get(r->k, [r, &mu, &cv, &done](std::experimental::optional<V> v) {
                        std::lock_guard<std::mutex> l(mu);
                        if (r->calls++ == 0) {
                            r->found = bool(v);
                            if (v) {
                                r->v = *v;
                            }
                        }
                        ++done;
                        cv.notify_all();
                    });
                }
                if (c.flip()) {
                    t.reset(); // waits for the requests
                    PBT_ASSERT(c, done == m, "the table is destroyed but only %zu of %zu requests called back", done, m);
                    t.reset(new typename S::Table(path));
                } else {
                    std::unique_lock<std::mutex> l(mu);
                    PBT_ASSERT(c, cv.wait_for(l, std::chrono::seconds(20), [&] { return done >= m; }), "%zu of %zu asynchronous lookups called back", done, m);
                }
                n_async += m;
                for (auto& r : res) {
                    auto it = model.find(r->k);
                    PBT_ASSERT(c, r->calls == 1, "an asynchronous lookup called back %d times", r->calls.load());
                    PBT_ASSERT(c, r->found == (it != model.end()), "asynchronous lookup: a key that is %s is %s",
                               it != model.end() ? "stored" : "absent", r->found ? "found" : "not found");
                    PBT_ASSERT(c, !r->found || r->v == it->second, "asynchronous lookup: wrong value");
                }
            }
        }
    }
    c.label(built ? (how == 1 ? (open_ok ? "built by the destructor" : "dropped by the destructor") : "built") : "refused");
    c.label(fits ? "fits" : "does not fit");
    c.label(moved ? "moved" : "-");
    c.label(n_async ? "async" : "-");
    c.note("page %zu, 2x%zu cells, %zu elements, depth %zu, key profile %d", PAGE, size, keys.size(), depth, gen.profile);
    c.nontrivial(keys.size() >= 2);
}

void table_body(Ctx& c)
{
    switch (c.weighted({3, 2, 3, 2, 3})) {
    case 0: table_case<64, RawTable<64>>(c); break;
    case 1: table_case<256, RawTable<256>>(c); break;
    case 2: table_case<4096, RawTable<4096>>(c); break;
    case 3: table_case<256, OceanusTable<256>>(c); break;
    default: table_case<4096, OceanusTable<4096>>(c); break;
    }
}

void large_table_body(Ctx& c)
{
    size_t n = c.edgy(250, 1500), m = c.edgy(65500, 75000);
    switch (c.weighted({4, 4, 1, 1})) {
    case 0: table_case<4096, OceanusTable<4096>>(c, n); break;
    case 1: table_case<4096, RawTable<4096>>(c, n); break;
    case 2: table_case<64, RawTable<64>>(c, m); break;
    default: table_case<256, OceanusTable<256>>(c, m); break;
    }
}

// files that are not a complete table are refused
void open_body(Ctx& c)
{
    start_kernel(c, false);
    using P = std::array<uint8_t, 256>;
    using V = abstractio::awonvm_vector<P, 256>;
    size_t      n      = 1 + c.u(8);
    bool        commit = c.flip();
    std::string path   = c.dir() + "/t";
    {
        V v(path);
        v.reserve(n);
        P p;
        p.fill(0xFF);
        for (size_t i = 0; i < n; ++i) {
            v.push_back(p);
        }
        if (commit) {
            v.commit();
        }
        // otherwise the destructor commits
    }
    bool ok = true;
    try {
        oceanus::CuckooHashTable<256, Key16, std::array<uint8_t, 240>, KeySer, ValSer<240>, oceanus::OceanusCuckooHasher> t(path);
    } catch (const std::runtime_error&) {
        ok = false;
    }
    bool want = n % 2 == 0;
    PBT_ASSERT(c, ok == want, "%s file of %zu pages is %s", commit ? "a committed" : "a closed", n, ok ? "opened as a table" : "refused");
    c.note("%zu pages, %s", n, commit ? "committed" : "not committed");
    c.nontrivial(true);
}

// ------------------------------------------------------------------------------
template<class Params>
struct IsRocks : std::false_type
{
};
template<size_t P>
struct IsRocks<pluto::RocksDBPlutoParams<P>> : std::true_type
{
};

oceanus::CuckooBuilderParam ht_param(Ctx& c, const std::string& d, size_t blocks, std::false_type, rocksdb::Options&)
{
    oceanus::CuckooBuilderParam q;
    q.value_file_path   = d + "/cuckoo.bin.tmp";
    q.cuckoo_table_path = d + "/cuckoo.bin";
    q.max_n_elements    = blocks;
    q.epsilon           = 0.3;
    q.max_search_depth  = 200 + 4 * blocks;
    (void)c;
    return q;
}
pluto::GenericRocksDBStoreParams ht_param(Ctx& c, const std::string& d, size_t, std::true_type, rocksdb::Options& o)
{
    pluto::GenericRocksDBStoreParams q;
    q.path = d + "/full_blocks";
    q.rocksdb_options = o = c.chance(1, 4) ? pluto::GenericRocksDBStoreParams::make_rocksdb_cuckoo_options()
                                           : pluto::GenericRocksDBStoreParams::make_rocksdb_regular_table_options();
    return q;
}
std::string ht_open(const std::string& d, std::false_type, const rocksdb::Options&)
{
    return d + "/cuckoo.bin";
}
pluto::GenericRocksDBStoreParams ht_open(const std::string& d, std::true_type, const rocksdb::Options& o)
{
    pluto::GenericRocksDBStoreParams q;
    q.path            = d + "/full_blocks";
    q.rocksdb_options = o;
    return q;
}

// the number of full blocks that whoever holds the files can see
size_t stored_blocks(const std::string& d, size_t page, std::false_type, const rocksdb::Options&)
{
    std::ifstream     f(d + "/cuckoo.bin", std::ios::binary);
    std::string       s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    const std::string empty(16, '\xFF');
    size_t            n = 0;
    for (size_t i = 0; i + page <= s.size(); i += page) {
        n += s.compare(i, 16, empty) != 0;
    }
    return n;
}
size_t stored_blocks(const std::string& d, size_t, std::true_type, const rocksdb::Options& o)
{
    rocksdb::DB* db = nullptr;
    if (!rocksdb::DB::Open(o, d + "/full_blocks", &db).ok()) {
        return 0;
    }
    std::unique_ptr<rocksdb::DB>       owner(db);
    std::unique_ptr<rocksdb::Iterator> it(db->NewIterator(rocksdb::ReadOptions()));
    size_t                             n = 0;
    for (it->SeekToFirst(); it->Valid(); it->Next()) {
        ++n;
    }
    return n;
}

template<class Params>
void pluto_case(Ctx& c, size_t long_list = 0)
{
    constexpr size_t PAGE = Params::kPageSize;
    constexpr size_t kMax = Params::kPlutoListLength;
    using rocks           = IsRocks<Params>;
    using inner           = typename Params::tethys_inner_encoder_type;
    using Builder         = pluto::PlutoBuilder<Params>;
    using Server          = pluto::PlutoServer<Params>;
    using Client          = pluto::PlutoClient<typename inner::decoder_type>;
    start_kernel(c, false);
    crypto::shim::random_state() = c.seed64();

    std::map<std::string, std::vector<uint64_t>> model, json;
    size_t n_kw = 1 + c.u(10), n_entries = 0, n_inc = 0, n_full = 0;
    bool   use_json = c.chance(1, 3);
    int    long_lists = PAGE > 512 || long_list != 0 ? 1 : 0;
    for (size_t i = 0; i < n_kw; ++i) {
        bool        in_json = use_json && c.flip();
        std::string kw      = in_json ? "kw" + std::to_string(c.u(1000))
                                      : c.flip() ? c.bytes(1 + c.u(12)) : "k" + std::to_string(c.u(30));
        if (model.count(kw)) {
            continue;
        }
        size_t n;
        switch (i == 0 && long_list != 0 ? 5 : c.weighted({2, 2, 2, 2, 1})) {
        case 5: n = kMax * long_list + c.u(kMax); break;
        case 0: n = c.u(5); break;
        case 1: n = kMax * c.u(3); break;
        case 2: n = kMax * (1 + c.u(3)) + 2 - c.u(4); break;
        case 3: n = c.u(kMax * 4); break;
        // block numbers that need more than four, eight or sixteen bits
        default: n = kMax * c.edgy(4, long_lists == 0 ? 300 : 20) + c.u(2) * (kMax / 2); ++long_lists; break;
        }
        std::vector<uint64_t> docs(n);
        int                   prof = static_cast<int>(c.weighted({4, 2, 1}));
        uint64_t              seed = c.seed64();
        for (auto& d : docs) {
            if (long_list != 0) {
                d = pbt::splitmix(seed) & (in_json ? 0xFFFFFFFFULL : ~0ULL);
                continue;
            }
            d = prof == 0 ? c.u(~0ULL) : prof == 1 ? c.u(3) : c.edgy(0, ~0ULL);
            if (in_json) {
                d = static_cast<uint32_t>(d);
            }
        }
        n_entries += n;
        n_full += n / kMax;
        n_inc += n % kMax != 0;
        if (in_json) {
            json[kw] = docs;
        }
        model[kw] = std::move(docs);
    }
    size_t n_elts = std::max<size_t>(1, n_entries + (c.flip() ? 0 : c.u(n_entries + 20)));
    size_t blocks = (n_elts + kMax - 1) / kMax;

    tethys::TethysStoreBuilderParam p;
    p.tethys_table_path = c.dir() + "/tethys.bin";
    p.tethys_stash_path = c.dir() + "/stash.bin";
    double load         = std::vector<double>{0.4, 0.9, 1.0, 1.3}[c.u(3)];
    size_t inc_entries  = 0;
    for (const auto& kv : model) {
        inc_entries += kv.second.size() % kMax;
    }
    p.max_n_elements = static_cast<size_t>((inc_entries + 6 * n_inc) / load) + 1;
    p.epsilon        = c.u(4) * 0.1;
    std::array<uint8_t, 32> prf_key, enc_key;
    for (auto& b : prf_key) {
        b = static_cast<uint8_t>(c.u(255));
    }
    for (auto& b : enc_key) {
        b = static_cast<uint8_t>(c.u(255));
    }
    rocksdb::Options opts;
    auto             hp = ht_param(c, c.dir(), blocks, rocks(), opts);
    bool             built = true;
    std::string      err;
    uint64_t         rnd = 0;
    {
        auto    k = prf_key;
        Builder first(n_elts, p, hp, crypto::Key<32>(k.data()), enc_key);
        std::unique_ptr<Builder> second;
        Builder*                 b     = &first;
        bool                     moved = c.chance(1, 3);
        if (moved) {
            second.reset(new Builder(std::move(first)));
            b = second.get();
        }
        for (const auto& kv : model) {
            if (!json.count(kv.first)) {
                b->insert_list(kv.first, std::list<uint64_t>(kv.second.begin(), kv.second.end()));
            }
        }
        if (!json.empty()) {
            std::string   jp = c.dir() + "/index.json";
            std::ofstream f(jp);
            f << "{";
            bool fst = true;
            for (const auto& kv : json) {
                f << (fst ? "" : ",") << "\"" << kv.first << "\":[";
                fst = false;
                for (size_t i = 0; i < kv.second.size(); ++i) {
                    f << (i ? "," : "") << kv.second[i];
                }
                f << "]";
            }
            f << "}";
            f.close();
            PBT_ASSERT(c, b->load_inverted_index(jp), "loading a well-formed inverted index failed");
        }
        if (c.chance(1, 4)) {
            PBT_ASSERT(c, !b->load_inverted_index(c.dir() + "/nothing_here.json"), "loading a missing inverted index is reported as a success");
        }
        rnd = crypto::shim::random_state();
        try {
            b->build();
        } catch (const std::runtime_error& e) {
            built = false;
            err   = e.what();
        }
    }
    if (!built) {
        // only because the blocks and the dummies cannot all be placed
        PBT_ASSERT(c, !rocks::value, "the build failed: %s", err.c_str());
        auto                    pk = prf_key;
        tethys::master_prf_type prf(crypto::Key<32>(pk.data()));
        std::vector<Key16>      keys;
        for (const auto& kv : model) {
            auto tok = prf.prf(kv.first);
            for (size_t i = 1; i <= kv.second.size() / kMax; ++i) {
                keys.push_back(tethys::details::derive_core_key(tok, i));
            }
        }
        crypto::shim::random_state() = rnd;
        for (size_t i = keys.size(); i < 1 + (n_elts - 1) / kMax; ++i) {
            keys.push_back(crypto::random_bytes<uint8_t, 16>());
        }
        bool f = feasible(keys, oceanus::details::cuckoo_table_size(blocks, 0.3));
        PBT_ASSERT(c, !f, "the build failed although every block fits: %s", err.c_str());
        c.label("infeasible, refused");
        c.nontrivial(false);
        return;
    }
    size_t stored = stored_blocks(c.dir(), PAGE, rocks(), opts);
    PBT_ASSERT(c, stored == blocks, "%zu full blocks are stored, %zu dummies included: their number shows (%zu for %zu announced documents)",
               stored, stored - std::min(stored, n_full), blocks, n_elts);
    for (int r = 0; r < 2; ++r) {
        if (r == 1 && !c.flip()) {
            break;
        }
        Server                  server(p.tethys_table_path, ht_open(c.dir(), rocks(), opts));
        auto                    k = prf_key;
        std::unique_ptr<Client> client;
        if (c.flip()) {
            client.reset(new Client(p.tethys_stash_path, crypto::Key<32>(k.data()), enc_key));
        } else {
            typename inner::decoder_type sd;
            client.reset(new Client(p.tethys_stash_path, sd, crypto::Key<32>(k.data()), enc_key));
        }
        auto search = [&](const std::string& kw) {
            auto sr  = client->search_request(kw);
            auto res = server.search(sr);
            return client->decode_search_results(sr, res);
        };
        for (const auto& kv : model) {
            auto got  = search(kv.first);
            auto want = kv.second;
            std::sort(got.begin(), got.end());
            std::sort(want.begin(), want.end());
            PBT_ASSERT(c,
                       got == want,
                       "searching a keyword with %zu documents (%zu per block, page %zu, %s) gives %zu documents%s",
                       want.size(),
                       kMax,
                       PAGE,
                       rocks::value ? "RocksDB" : "cuckoo",
                       got.size(),
                       got.size() == want.size() ? " (other ones)" : "");
        }
        for (int i = 0; i < 3; ++i) {
            std::string kw = c.flip() ? c.bytes(1 + c.u(12)) : "k" + std::to_string(c.u(40));
            if (!model.count(kw)) {
                auto got = search(kw);
                PBT_ASSERT(c, got.empty(), "searching an unknown keyword gives %zu documents", got.size());
            }
        }
    }
    c.note("page %zu, %s, %zu keywords (%zu from JSON), %zu entries, %zu full blocks, %zu announced entries",
           PAGE, rocks::value ? "RocksDB" : "cuckoo", model.size(), json.size(), n_entries, n_full, n_elts);
    c.label(rocks::value ? "rocksdb" : "cuckoo");
    c.label(n_full ? "full blocks" : "no full block");
    c.label(json.empty() ? "no json" : "json");
    c.label(n_full > 65535 ? "over 65535 blocks" : n_full > 255 ? "over 255 blocks" : "-");
    c.nontrivial(n_full >= 1 && model.size() >= 2);
}

void pluto_body(Ctx& c)
{
    switch (c.weighted({5, 3, 2, 1, 1})) {
    case 0: pluto_case<pluto::DefaultPlutoParams<256>>(c); break;
    case 1: pluto_case<pluto::DefaultPlutoParams<512>>(c); break;
    case 2: pluto_case<pluto::DefaultPlutoParams<4096>>(c); break;
    case 3: pluto_case<pluto::RocksDBPlutoParams<256>>(c); break;
    default: pluto_case<pluto::RocksDBPlutoParams<4096>>(c); break;
    }
}

void long_pluto_body(Ctx& c)
{
    switch (c.weighted({12, DIV == 1 ? 1 : 0, 8, 4, 8})) {
    case 0: pluto_case<pluto::DefaultPlutoParams<256>>(c, c.edgy(250, 3000)); break;
    // (a search takes a time quadratic in the number of blocks)
    case 1: pluto_case<pluto::DefaultPlutoParams<64>>(c, c.edgy(65536, 65545)); break;
    case 2: pluto_case<pluto::RocksDBPlutoParams<256>>(c, c.edgy(250, 3000)); break;
    case 3: pluto_case<pluto::RocksDBPlutoParams<4096>>(c, c.edgy(250, 300)); break;
    default: pluto_case<pluto::DefaultPlutoParams<4096>>(c, c.edgy(250, 600)); break;
    }
}

} // namespace

int main(int argc, char** argv)
{
    if (!getenv("PBT_LOG")) {
        std::cerr.rdbuf(nullptr);
        std::cout.rdbuf(nullptr);
    }
    if (!getenv("PBT_LOG")) {
        sse::logger::set_logging_level(spdlog::level::off);
    }
    std::vector<pbt::Check> checks(4);
    checks[0].property       = "C14";
    checks[0].name           = "allocator" SUFFIX;
    checks[0].rule           = "random key sequences (random, colliding, crowded) inserted in 2x1..60 cells with any "
                     "search depth, against the two-choice feasibility criterion; non-trivial: >=3 elements";
    checks[0].body           = allocator_body;
    checks[0].quick_cases    = 300000 / DIV;
    checks[0].thorough_cases = 5000000 / DIV;
    checks[1].property       = "C14";
    checks[1].name           = "table" SUFFIX;
    checks[1].rule           = "random key/value sets built (explicitly, by destruction, after moves) and looked up "
                     "synchronously, asynchronously, with direct I/O and after reopening, in plain cuckoo tables "
                     "and Oceanus; non-trivial: >=2 elements";
    checks[1].body           = table_body;
    checks[1].quick_cases    = 8000 / DIV;
    checks[1].thorough_cases = 300000 / DIV;
    checks[1].needs_dir      = true;
    checks[2].property       = "C14";
    checks[2].name           = "open" SUFFIX;
    checks[2].rule           = "files of 1..9 pages, committed or not, opened as a table; every case is non-trivial";
    checks[2].body           = open_body;
    checks[2].quick_cases    = 200;
    checks[2].thorough_cases = 2000;
    checks[2].needs_dir      = true;
    checks[3].property       = "C15";
    checks[3].name           = "search" SUFFIX;
    checks[3].rule           = "random inverted indexes (list lengths around block boundaries, from calls and JSON "
                     "files) on both back ends, searched after reopening; non-trivial: >=2 keywords and a full block";
    checks[3].body           = pluto_body;
    checks[3].quick_cases    = 10000 / DIV;
    checks[3].thorough_cases = 100000 / DIV;
    checks[3].needs_dir      = true;
    pbt::Check la;
    la.property       = "C14";
    la.name           = "large_allocator" SUFFIX;
    la.rule           = "2x250 to 2x66000 cells, filled to the limit or so that an insertion moves a chain of elements "
                     "(up to all of them); all non-trivial";
    la.body           = large_allocator_body;
    la.quick_cases    = 4000 / DIV;
    la.thorough_cases = 20000 / DIV;
    la.case_timeout_s = 240;
    checks.push_back(la);
    la.name           = "large_table" SUFFIX;
    la.rule           = "tables of 250 to 75000 elements; all non-trivial";
    la.body           = large_table_body;
    la.quick_cases    = 240 / DIV;
    la.thorough_cases = 10000 / DIV;
    la.needs_dir      = true;
    checks.push_back(la);
    la.property       = "C15";
    la.name           = "long_lists" SUFFIX;
    la.rule           = "a keyword of 250 to 65545 full blocks among short ones; all non-trivial";
    la.body           = long_pluto_body;
    la.quick_cases    = 64 / DIV;
    la.thorough_cases = 4000 / DIV;
    checks.push_back(la);
    return pbt::Engine(argc, argv, checks).run();
}
