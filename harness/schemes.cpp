// C11 Sophos, C12 Diana, C13 Janus: searches against a model of the history
// C17: freshness of the update tokens; C22: concurrent insertions and searches
#include "pbt.hpp"

#include <sse/schemes/diana/diana_client.hpp>
#include <sse/schemes/diana/diana_server.hpp>
#include <sse/schemes/janus/janus_client.hpp>
#include <sse/schemes/janus/janus_server.hpp>
#include <sse/schemes/sophos/sophos_client.hpp>
#include <sse/schemes/sophos/sophos_server.hpp>

#include <iostream>
#include <mutex>
#include <thread>

#define CHAOS_WRAP
#include "chaos.hpp"

using pbt::Ctx;
using namespace sse;
using Buf32 = std::array<uint8_t, 32>;

namespace {

crypto::Key<32> key_of(Buf32 b)
{
    return crypto::Key<32>(b.data());
}
Buf32 gen_key(Ctx& c)
{
    Buf32    b;
    uint64_t s = c.seed64();
    for (auto& x : b) {
        x = static_cast<uint8_t>(pbt::splitmix(s));
    }
    return b;
}

// distinct keywords: short, empty, sharing prefixes, with any bytes, long
std::vector<std::string> gen_keywords(Ctx& c, size_t n)
{
    std::vector<std::string> v;
    while (v.size() < n) {
        std::string k;
        switch (c.weighted({4, 2, 2, 2, 1, 3})) {
        case 0: k = "kw" + std::to_string(c.u(20)); break;
        case 1: k = c.bytes(c.u(3)); break;
        case 2: k = v.empty() ? "a" : v[c.u(v.size() - 1)] + c.bytes(1); break;
        case 3: k = c.bytes(8); break;
        case 5: {
            // what a scheme could itself put around a keyword or a number
            static const char* const kAffix[] = {"1", "0", "11", "10", "2", "00000001", "01000000", "01", "00"};
            k = v.empty() ? "x" : v[c.u(v.size() - 1)];
            k = c.chance(3, 4) ? kAffix[c.u(8)] + k : k + kAffix[c.u(8)];
            break;
        }
        default: k = std::string(100 + c.u(300), static_cast<char>('a' + c.u(3))); break;
        }
        if (std::find(v.begin(), v.end(), k) == v.end()) {
            v.push_back(k);
        } else {
            v.push_back(k + "#" + std::to_string(v.size()));
            if (std::count(v.begin(), v.end(), v.back()) > 1) {
                v.pop_back();
                c.discard();
            }
        }
    }
    return v;
}
uint64_t gen_doc(Ctx& c)
{
    return c.weighted({3, 1, 1}) == 0 ? c.u(9) : c.edgy(0, ~0ULL);
}

std::string raw_bytes(uint64_t x)
{
    return std::string(reinterpret_cast<const char*>(&x), sizeof(x));
}

template<class L>
std::multiset<typename L::value_type> mset(const L& l)
{
    return {l.begin(), l.end()};
}
std::string show(uint64_t v)
{
    return std::to_string(v);
}
template<size_t N>
std::string show(const std::array<uint8_t, N>& a)
{
    uint64_t v;
    memcpy(&v, a.data(), 8);
    return std::to_string(v);
}
template<class S>
std::string show_set(const S& s)
{
    std::string o = "{";
    size_t      n = 0;
    for (const auto& x : s) {
        if (++n > 12) {
            o += " ...";
            break;
        }
        o += " " + show(x);
    }
    return o + " } (" + std::to_string(s.size()) + ")";
}
template<class T>
void same(Ctx& c, const char* what, size_t kw, const std::multiset<T>& got,
          const std::multiset<T>& want)
{
    PBT_ASSERT(c, got == want, "%s for keyword #%zu returned %s instead of %s", what, kw,
               show_set(got).c_str(), show_set(want).c_str());
}

// ---------------------------------------------------------------------- Sophos
struct SophosKeys
{
    std::string sk, pk;
    Buf32       derivation, prg;
};
SophosKeys sophos_keys(Ctx& c)
{
    crypto::shim::random_state() = c.seed64();
    crypto::TdpInverse tdp;
    return {tdp.private_key(), tdp.public_key(), gen_key(c), gen_key(c)};
}
std::unique_ptr<sophos::SophosClient> open_sophos_client(const SophosKeys& k, const std::string& p)
{
    return std::make_unique<sophos::SophosClient>(p, k.sk, key_of(k.derivation), key_of(k.prg));
}

template<class T>
struct Collector
{
    std::mutex       m;
    std::multiset<T> s;
    void             add(const T& v)
    {
        std::lock_guard<std::mutex> l(m);
        s.insert(v);
    }
};

const char* const kSophosVariants[] = {"search",
                                       "search_callback",
                                       "search_parallel",
                                       "search_parallel_light",
                                       "search_parallel_callback",
                                       "search_parallel_light_callback"};
std::multiset<uint64_t> sophos_search(Ctx& c, sophos::SophosServer& s, sophos::SophosClient& cl,
                                      const std::string& kw, size_t variant)
{
    auto req = cl.search_request(kw);
    if (req.add_count == 0) {
        // these fields mean nothing: make sure that nobody relies on them
        req.token.fill(0xFF);
        req.derivation_key.fill(0xFF);
    }
    Collector<uint64_t> col;
    auto                cb = [&](uint64_t v) { col.add(v); };
    uint8_t n1 = static_cast<uint8_t>(c.edgy(1, 12)), n2 = static_cast<uint8_t>(1 + c.u(3)),
            n3 = static_cast<uint8_t>(1 + c.u(3));
    switch (variant) {
    case 0: return mset(s.search(req));
    case 1: s.search_callback(req, cb); return col.s;
    case 2: return mset(s.search_parallel(req, n2));
    case 3: return mset(s.search_parallel_light(req, n1));
    case 4: s.search_parallel_callback(req, cb, n1, n2, n3); return col.s;
    default: s.search_parallel_light_callback(req, cb, n1); return col.s;
    }
}

void sophos_body(Ctx& c)
{
    size_t nkw = 1 + c.u(4);
    auto   kws = gen_keywords(c, nkw + 1); // the last one is never inserted
    auto   k   = sophos_keys(c);
    auto   cp = c.dir() + "/client", sp = c.dir() + "/server";
    auto   client = open_sophos_client(k, cp);
    auto   server = std::make_unique<sophos::SophosServer>(sp, client->public_key());
    PBT_ASSERT(c, client->public_key() == k.pk && client->private_key() == k.sk
                      && server->public_key() == k.pk,
               "the keys that were given are not the keys reported");
    std::vector<std::multiset<uint64_t>>              model(nkw + 1);
    std::vector<std::pair<size_t, sophos::UpdateRequest>> pending;
    std::vector<uint64_t>                             pending_doc;
    auto deliver = [&]() {
        while (!pending.empty()) {
            size_t i = c.u(pending.size() - 1);
            server->insert(pending[i].second);
            model[pending[i].first].insert(pending_doc[i]);
            pending.erase(pending.begin() + static_cast<long>(i));
            pending_doc.erase(pending_doc.begin() + static_cast<long>(i));
        }
    };
    size_t ops = 3 + c.u(c.flip() ? 10 : 40);
    size_t searches = 0, restarts = 0, inserted = 0;
    auto   insert = [&](size_t w, uint64_t doc) {
        c.note("insert #%zu %llu", w, static_cast<unsigned long long>(doc));
        pending.emplace_back(w, client->insertion_request(kws[w], doc));
        pending_doc.push_back(doc);
        ++inserted;
    };
    auto search = [&](size_t w, size_t variant) {
        deliver();
        c.note("%s #%zu", kSophosVariants[variant], w);
        auto got = sophos_search(c, *server, *client, kws[w], variant);
        same(c, kSophosVariants[variant], w, got, model[w]);
        ++searches;
        c.label(kSophosVariants[variant]);
        if (model[w].size() > 1) {
            c.nontrivial();
        }
    };
    for (size_t i = 0; i < ops; ++i) {
        switch (c.weighted({8, 3, 8, 1, 1, 1})) {
        case 0: insert(c.u(nkw - 1), gen_doc(c)); break;
        case 1: {
            size_t w = c.u(nkw - 1), n = 2 + c.u(c.chance(1, 6) ? 40 : 8);
            for (size_t j = 0; j < n; ++j) {
                insert(w, gen_doc(c));
            }
            break;
        }
        case 2: search(c.chance(1, 8) ? nkw : c.u(nkw - 1), c.u(5)); break;
        case 3:
            c.note("restart client");
            client.reset();
            client = open_sophos_client(k, cp);
            ++restarts;
            break;
        case 4:
            c.note("restart server");
            server.reset();
            server = std::make_unique<sophos::SophosServer>(sp, k.pk);
            ++restarts;
            break;
        default: {
            // a second execution of the same search gives the same answer
            size_t w = c.u(nkw - 1);
            search(w, c.u(5));
            search(w, c.u(5));
        }
        }
    }
    for (size_t w = 0; w <= nkw; ++w) {
        search(w, c.u(5));
    }
    c.label("restarts", restarts);
    c.label("insertions", inserted);
}

// one long list among short ones: counts above 255 and, for Diana, above 65535
void sophos_large_body(Ctx& c)
{
    auto k      = sophos_keys(c);
    auto cp     = c.dir() + "/client", sp = c.dir() + "/server";
    auto client = open_sophos_client(k, cp);
    auto server = std::make_unique<sophos::SophosServer>(sp, client->public_key());
    size_t n    = c.weighted({4, 2, 1}) == 0 ? c.edgy(250, 1100) : c.flip() ? c.edgy(2000, 5000) : c.edgy(65500, 65600);
    uint64_t                             base = c.seed64(), step = c.u(1);
    std::vector<std::multiset<uint64_t>> model(3);
    const std::string                    kws[3] = {"long", "long2", ""};
    c.note("%zu documents under one keyword", n);
    for (size_t i = 0; i < n; ++i) {
        server->insert(client->insertion_request(kws[0], base + i * step));
        model[0].insert(base + i * step);
        if (i % 64 == 0) {
            server->insert(client->insertion_request(kws[1 + i % 2], i));
            model[1 + i % 2].insert(i);
        }
    }
    if (n > 1200 || c.flip()) {
        client.reset();
        server.reset();
        client = open_sophos_client(k, cp);
        server = std::make_unique<sophos::SophosServer>(sp, k.pk);
    }
    for (size_t v = 0; v < 6; ++v) {
        same(c, kSophosVariants[v], 0, sophos_search(c, *server, *client, kws[0], v), model[0]);
    }
    same(c, "search", 1, sophos_search(c, *server, *client, kws[1], 0), model[1]);
    c.nontrivial();
}

// ----------------------------------------------------------------------- Diana
template<class T>
T make_doc(uint64_t v);
template<>
uint64_t make_doc<uint64_t>(uint64_t v)
{
    return v;
}
template<>
std::array<uint8_t, 24> make_doc<std::array<uint8_t, 24>>(uint64_t v)
{
    std::array<uint8_t, 24> a;
    for (size_t i = 0; i < 24; i += 8) {
        uint64_t x = v ^ (i * 0x0101010101010101ULL);
        memcpy(a.data() + i, &x, 8);
    }
    return a;
}

template<class T>
struct DianaRig
{
    Buf32                                  k1, k2;
    std::string                            cp, sp;
    std::unique_ptr<diana::DianaClient<T>> client;
    std::unique_ptr<diana::DianaServer<T>> server;
    DianaRig(Ctx& c, const std::string& d)
        : k1(gen_key(c)), k2(gen_key(c)), cp(d + "/client"), sp(d + "/server")
    {
        open_client();
        open_server();
    }
    void open_client()
    {
        client.reset();
        client = std::make_unique<diana::DianaClient<T>>(cp, key_of(k1), key_of(k2));
    }
    void open_server()
    {
        server.reset();
        server = std::make_unique<diana::DianaServer<T>>(sp);
    }
};

const char* const kDianaVariants[] = {"search(list)",           "search(callback)",
                                      "search_parallel(list)",  "search_parallel(vector)",
                                      "search_parallel(callback)", "search_parallel(positions)"};

// numbers of threads, some of them chosen after the number of matches: as many,
// one more or less, or leaving a remainder that is an extreme one
uint8_t threads_for(Ctx& c, size_t matches)
{
    size_t n;
    switch (c.weighted({6, 2, 2, 2, 1})) {
    case 0: n = 1 + c.u(3); break;
    case 1: n = c.edgy(1, 40); break;
    case 2: n = matches + 2 - c.u(4); break;
    case 3: {
        std::vector<size_t> best;
        for (size_t i = 2; i <= 255; ++i) {
            size_t r = matches % i;
            if (r <= 1 || r + 2 >= i) {
                best.push_back(i);
            }
        }
        n = c.flip() ? c.pick(best) : best.back();
        break;
    }
    default: n = c.edgy(1, 255);
    }
    return static_cast<uint8_t>(std::min<size_t>(255, std::max<size_t>(1, n > 1000000 ? 1 : n)));
}

// `model`: documents by position, nothing where a search deleted the entry
template<class T>
void diana_search(Ctx& c, diana::DianaServer<T>& s, const diana::SearchRequest& req, size_t w,
                  size_t variant, bool del, const std::vector<std::pair<bool, T>>& model)
{
    std::vector<T> want;
    for (const auto& e : model) {
        if (e.first) {
            want.push_back(e.second);
        }
    }
    const std::multiset<T> wset(want.begin(), want.end());
    const char*            what = kDianaVariants[variant];
    uint8_t                n    = threads_for(c, model.size());
    switch (variant) {
    case 0: {
        auto r = s.search(req, del);
        same(c, what, w, mset(r), wset);
        break;
    }
    case 1: {
        Collector<T> col;
        s.search(req, [&](T v) { col.add(v); }, del);
        same(c, what, w, col.s, wset);
        break;
    }
    case 2: {
        auto r = s.search_parallel(req, n, del);
        same(c, what, w, mset(r), wset);
        PBT_ASSERT(c, std::equal(r.begin(), r.end(), want.begin()),
                   "%s with %u threads: the results are not in insertion order", what, n);
        break;
    }
    case 3: {
        T      filler = make_doc<T>(0x5A5A5A5A5A5A5A5AULL);
        size_t before = c.weighted({2, 1, 1}) == 0 ? 0 : c.u(2 * model.size() + 2);
        std::vector<T> r(before, filler);
        s.search_parallel(req, n, r, del);
        PBT_ASSERT(c, r.size() == std::max(before, model.size()),
                   "%s: the vector of %zu elements has %zu after a search with %zu matches", what,
                   before, r.size(), model.size());
        for (size_t i = 0; i < r.size(); ++i) {
            if (i < model.size() && model[i].first) {
                PBT_ASSERT(c, r[i] == model[i].second,
                           "%s with %u threads: position %zu holds %s instead of %s", what, n, i,
                           show(r[i]).c_str(), show(model[i].second).c_str());
            } else if (i < before) {
                PBT_ASSERT(c, r[i] == filler, "%s: position %zu was overwritten with %s", what, i,
                           show(r[i]).c_str());
            }
        }
        break;
    }
    case 4: {
        Collector<T> col;
        s.search_parallel(req, [&](T v) { col.add(v); }, n, del);
        same(c, what, w, col.s, wset);
        break;
    }
    default: {
        std::mutex                          m;
        std::map<size_t, T>                 pos;
        std::map<uint8_t, std::thread::id>  owner;
        std::string                         bad;
        s.search_parallel(
            req,
            [&](size_t i, T v, uint8_t t) {
                std::lock_guard<std::mutex> l(m);
                if (!pos.emplace(i, v).second) {
                    bad = "position " + std::to_string(i) + " was reported twice";
                }
                if (t >= n) {
                    bad = "thread id " + std::to_string(t) + " with " + std::to_string(n) + " threads";
                }
                auto o = owner.emplace(t, std::this_thread::get_id());
                if (o.first->second != std::this_thread::get_id()) {
                    bad = "two threads used the id " + std::to_string(t);
                }
            },
            n, del);
        PBT_ASSERT(c, bad.empty(), "%s: %s", what, bad.c_str());
        PBT_ASSERT(c, pos.size() == want.size(), "%s with %u threads: %zu results instead of %zu",
                   what, n, pos.size(), want.size());
        for (const auto& e : pos) {
            PBT_ASSERT(c,
                       e.first < model.size() && model[e.first].first
                           && model[e.first].second == e.second,
                       "%s with %u threads: position %zu holds %s", what, n, e.first,
                       show(e.second).c_str());
        }
    }
    }
}

template<class T>
void diana_case(Ctx& c)
{
    size_t      nkw = 1 + c.u(4);
    auto        kws = gen_keywords(c, nkw + 1);
    DianaRig<T> r(c, c.dir());
    std::vector<std::vector<std::pair<bool, T>>> model(nkw + 1);
    std::vector<diana::UpdateRequest<T>>         pending;
    auto deliver = [&]() {
        while (!pending.empty()) {
            size_t i = c.u(pending.size() - 1);
            r.server->insert(pending[i]);
            pending.erase(pending.begin() + static_cast<long>(i));
        }
    };
    size_t searches = 0, restarts = 0, inserted = 0, deleting = 0, bulks = 0, removals = 0;
    auto   search = [&](size_t w, size_t variant, bool del) {
        deliver();
        c.note("%s #%zu%s", kDianaVariants[variant], w, del ? " and delete" : "");
        auto req = r.client->search_request(kws[w]);
        PBT_ASSERT(c, req.add_count == model[w].size(),
                   "a search request for keyword #%zu announces %u matches instead of %zu", w,
                   req.add_count, model[w].size());
        PBT_ASSERT(c, r.client->get_match_count(kws[w]) == model[w].size(),
                   "the client reports %u matches for keyword #%zu instead of %zu",
                   r.client->get_match_count(kws[w]), w, model[w].size());
        diana_search<T>(c, *r.server, req, w, variant, del, model[w]);
        if (del) {
            for (auto& e : model[w]) {
                e.first = false;
            }
            ++deleting;
        }
        ++searches;
        if (model[w].size() > 1) {
            c.nontrivial();
        }
    };
    size_t ops = 3 + c.u(c.flip() ? 10 : 40);
    for (size_t i = 0; i < ops; ++i) {
        switch (c.weighted({8, 3, 3, 9, 1, 1, 1, 1, 2})) {
        case 0: {
            size_t w = c.u(nkw - 1);
            auto   d = make_doc<T>(gen_doc(c));
            c.note("insert #%zu %s", w, show(d).c_str());
            pending.push_back(r.client->insertion_request(kws[w], d));
            model[w].emplace_back(true, d);
            ++inserted;
            break;
        }
        case 1: {
            size_t w = c.u(nkw - 1), n = 2 + c.u(c.chance(1, 6) ? 60 : 8);
            c.note("insert #%zu x %zu", w, n);
            for (size_t j = 0; j < n; ++j) {
                auto d = make_doc<T>(gen_doc(c));
                pending.push_back(r.client->insertion_request(kws[w], d));
                model[w].emplace_back(true, d);
                ++inserted;
            }
            break;
        }
        case 2: {
            std::list<std::pair<std::string, T>> l;
            size_t                               n = c.u(c.chance(1, 6) ? 60 : 10);
            c.note("bulk insertion of %zu", n);
            std::vector<size_t> ws;
            for (size_t j = 0; j < n; ++j) {
                size_t w = c.u(nkw - 1);
                auto   d = make_doc<T>(gen_doc(c));
                l.emplace_back(kws[w], d);
                model[w].emplace_back(true, d);
                ++inserted;
            }
            auto reqs = r.client->bulk_insertion_request(l);
            PBT_ASSERT(c, reqs.size() == n, "a bulk insertion of %zu pairs gave %zu requests", n,
                       reqs.size());
            pending.insert(pending.end(), reqs.begin(), reqs.end());
            ++bulks;
            break;
        }
        case 3: search(c.chance(1, 8) ? nkw : c.u(nkw - 1), c.u(5), false); break;
        case 4: search(c.u(nkw - 1), c.u(5), true); break;
        case 5: {
            // the leaves of a removed keyword are used again
            deliver();
            size_t w = c.u(nkw - 1);
            c.note("remove keyword #%zu", w);
            PBT_ASSERT(c, r.client->remove_keyword(kws[w]), "unable to remove keyword #%zu", w);
            model[w].clear();
            ++removals;
            break;
        }
        case 6:
            c.note("restart client");
            r.open_client();
            ++restarts;
            break;
        case 7:
            c.note("restart server");
            if (c.flip()) {
                r.server->flush_edb();
            }
            r.open_server();
            ++restarts;
            break;
        default: {
            // the same request can be executed again
            deliver();
            size_t w   = c.u(nkw - 1);
            auto   req = r.client->search_request(kws[w]);
            for (int j = 0; j < 2; ++j) {
                size_t v = c.u(5);
                c.note("%s #%zu, same request", kDianaVariants[v], w);
                diana_search<T>(c, *r.server, req, w, v, false, model[w]);
            }
            ++searches;
        }
        }
    }
    for (size_t w = 0; w <= nkw; ++w) {
        search(w, c.u(5), false);
    }
    c.label("searches", searches);
    c.label("insertions", inserted);
    c.label("bulk insertions", bulks);
    c.label("deleting searches", deleting);
    c.label("keyword removals", removals);
    c.label("restarts", restarts);
}
void diana_large_body(Ctx& c)
{
    DianaRig<uint64_t> r(c, c.dir());
    size_t             n = c.weighted({5, 2, 1}) == 0 ? c.edgy(250, 1100)
                           : c.flip()                 ? c.flip() ? c.edgy(4000, 4200) : c.in(2, 5) * c.in(250, 255) - c.in(1, 2)
                                                      : c.edgy(65500, 65600);
    uint64_t base = c.seed64(), step = c.u(1);
    using Model   = std::vector<std::pair<bool, uint64_t>>;
    Model long_list, short_list;
    c.note("%zu documents under one keyword", n);
    bool bulk = c.flip();
    std::list<std::pair<std::string, uint64_t>> l;
    for (size_t i = 0; i < n; ++i) {
        long_list.emplace_back(true, base + i * step);
        if (bulk) {
            l.emplace_back("long", base + i * step);
        } else {
            r.server->insert(r.client->insertion_request("long", base + i * step));
        }
        if (i % 256 == 0) {
            r.server->insert(r.client->insertion_request("long2", i));
            short_list.emplace_back(true, i);
        }
    }
    for (const auto& q : r.client->bulk_insertion_request(l)) {
        r.server->insert(q);
    }
    if (c.flip()) {
        r.open_client();
        r.open_server();
    }
    if (n > 1200) {
        r.server->flush_edb(); // RocksDB's vector memtable is sorted at every read
    }
    PBT_ASSERT(c, r.client->get_match_count("long") == n, "the client reports %u matches instead of %zu",
               r.client->get_match_count("long"), n);
    for (size_t v = 0; v < 6; ++v) {
        diana_search<uint64_t>(c, *r.server, r.client->search_request("long"), 0, v, false, long_list);
    }
    for (size_t i = n > 5000 ? 6 : 0; i < 8; ++i) {
        diana_search<uint64_t>(c, *r.server, r.client->search_request("long"), 0, 2 + c.u(3), false, long_list);
    }
    diana_search<uint64_t>(c, *r.server, r.client->search_request("long2"), 1, 0, false, short_list);
    c.nontrivial();
    if (n > 1200) {
        return;
    }
    // delete everything with one variant, look with another one
    diana_search<uint64_t>(c, *r.server, r.client->search_request("long"), 0, c.u(5), true, long_list);
    for (auto& e : long_list) {
        e.first = false;
    }
    diana_search<uint64_t>(c, *r.server, r.client->search_request("long"), 0, c.u(5), false, long_list);
    diana_search<uint64_t>(c, *r.server, r.client->search_request("long2"), 1, 4, false, short_list);
}
void diana_body(Ctx& c)
{
    diana_case<uint64_t>(c);
}
void diana_wide_body(Ctx& c)
{
    diana_case<std::array<uint8_t, 24>>(c);
}

// ----------------------------------------------------------------------- Janus
struct JanusRig
{
    Buf32                               k;
    std::string                         d;
    std::unique_ptr<janus::JanusClient> client;
    std::unique_ptr<janus::JanusServer> server;
    JanusRig(Ctx& c, const std::string& dir) : k(gen_key(c)), d(dir)
    {
        open_client();
        open_server();
    }
    void open_client()
    {
        client.reset();
        client = std::make_unique<janus::JanusClient>(d + "/sc", d + "/ca", d + "/cd", key_of(k));
    }
    void open_server()
    {
        server.reset();
        server = std::make_unique<janus::JanusServer>(d + "/sa", d + "/sd", d + "/scache");
    }
};

struct JanusModel
{
    std::multiset<uint64_t> cached, fresh;
    std::set<uint64_t>      deleted;
    std::multiset<uint64_t> search()
    {
        std::multiset<uint64_t> r;
        for (auto* s : {&cached, &fresh}) {
            for (auto d : *s) {
                if (deleted.count(d) == 0) {
                    r.insert(d);
                }
            }
        }
        cached = r;
        fresh.clear();
        deleted.clear();
        return r;
    }
};
const char* const kJanusVariants[]
    = {"search", "search_parallel(list)", "search_parallel(callback)", "search_parallel(thread callback)"};

std::multiset<uint64_t> janus_search(Ctx& c, janus::JanusServer& s, janus::SearchRequest& req,
                                     size_t variant)
{
    uint8_t             n = c.flip() ? 1 + c.u(3) : threads_for(c, req.insertion_search_request.add_count);
    Collector<uint64_t> col;
    switch (variant) {
    case 0: return mset(s.search(req));
    case 1: return mset(s.search_parallel(req, n));
    case 2:
        s.search_parallel(req, n, std::function<void(uint64_t)>([&](uint64_t v) { col.add(v); }));
        return col.s;
    default: {
        std::atomic<bool> bad{false};
        s.search_parallel(req, n, std::function<void(uint64_t, uint8_t)>([&](uint64_t v, uint8_t t) {
                              col.add(v);
                              bad = bad || t > n;
                          }));
        PBT_ASSERT(c, !bad, "a callback was given a thread id above the number of threads");
        return col.s;
    }
    }
}

void janus_body(Ctx& c)
{
    size_t                  nkw = 1 + c.u(3);
    auto                    kws = gen_keywords(c, nkw + 1);
    JanusRig                r(c, c.dir());
    std::vector<JanusModel> model(nkw + 1);
    std::vector<std::pair<bool, janus::InsertionRequest>> pending;
    auto deliver = [&]() {
        while (!pending.empty()) {
            size_t i = c.u(pending.size() - 1);
            if (pending[i].first) {
                r.server->insert(pending[i].second);
            } else {
                r.server->remove(pending[i].second);
            }
            pending.erase(pending.begin() + static_cast<long>(i));
        }
    };
    size_t searches = 0, inserted = 0, deleted = 0, restarts = 0;
    // documents to delete are mostly documents that are there
    auto doc_for_deletion = [&](size_t w) -> uint64_t {
        std::vector<uint64_t> v(model[w].cached.begin(), model[w].cached.end());
        v.insert(v.end(), model[w].fresh.begin(), model[w].fresh.end());
        return v.empty() || c.chance(1, 5) ? gen_doc(c) : c.pick(v);
    };
    auto insert = [&](size_t w, uint64_t d) {
        c.note("insert #%zu %llu", w, static_cast<unsigned long long>(d));
        pending.emplace_back(true, r.client->insertion_request(kws[w], d));
        model[w].fresh.insert(d);
        ++inserted;
    };
    auto remove = [&](size_t w, uint64_t d) {
        c.note("delete #%zu %llu", w, static_cast<unsigned long long>(d));
        pending.emplace_back(false, r.client->removal_request(kws[w], d));
        model[w].deleted.insert(d);
        ++deleted;
    };
    auto search = [&](size_t w, size_t variant) {
        deliver();
        c.note("%s #%zu", kJanusVariants[variant], w);
        auto req     = r.client->search_request(kws[w]);
        bool deletes = !model[w].deleted.empty() && !(model[w].cached.empty() && model[w].fresh.empty());
        auto want = model[w].search();
        auto got  = janus_search(c, *r.server, req, variant);
        same(c, kJanusVariants[variant], w, got, want);
        ++searches;
        c.nontrivial(deletes);
    };
    size_t ops = 4 + c.u(c.flip() ? 12 : 40);
    for (size_t i = 0; i < ops; ++i) {
        switch (c.weighted({8, 6, 2, 1, 7, 1, 1, 1})) {
        case 0: insert(c.u(nkw - 1), gen_doc(c)); break;
        case 1: {
            size_t w = c.u(nkw - 1);
            remove(w, doc_for_deletion(w));
            break;
        }
        case 2: {
            size_t w = c.u(nkw - 1), n = 2 + c.u(10);
            for (size_t j = 0; j < n; ++j) {
                insert(w, gen_doc(c));
            }
            break;
        }
        case 3: {
            size_t w = c.u(nkw - 1), n = 2 + c.u(6);
            for (size_t j = 0; j < n; ++j) {
                remove(w, doc_for_deletion(w));
            }
            break;
        }
        case 4: search(c.chance(1, 8) ? nkw : c.u(nkw - 1), c.u(3)); break;
        case 5:
            c.note("restart client");
            r.open_client();
            ++restarts;
            break;
        case 6: {
            // every search moves the keyword to another epoch
            size_t w = c.u(nkw - 1), n = c.edgy(2, 20);
            for (size_t j = 0; j < n; ++j) {
                if (c.chance(3, 4)) {
                    insert(w, gen_doc(c));
                } else {
                    remove(w, doc_for_deletion(w));
                }
                search(w, c.u(3));
            }
            break;
        }
        default:
            c.note("restart server");
            if (c.flip()) {
                r.server->flush_edb();
            }
            r.open_server();
            ++restarts;
        }
    }
    for (size_t w = 0; w <= nkw; ++w) {
        search(w, c.u(3));
        search(w, c.u(3)); // from the cache only
    }
    c.label("searches", searches);
    c.label("insertions", inserted);
    c.label("deletions", deleted);
    c.label("restarts", restarts);
}

void janus_large_body(Ctx& c)
{
    JanusRig   r(c, c.dir());
    JanusModel m;
    size_t     n = c.edgy(250, 400);
    for (size_t round = 0; round < 2; ++round) {
        size_t dels = c.u(6);
        c.note("%zu documents, %zu deletions", n, dels);
        for (size_t i = 0; i < n; ++i) {
            uint64_t d = round * 300 + i;
            r.server->insert(r.client->insertion_request("long", d));
            m.fresh.insert(d);
            if (i % 100 == 0) {
                r.server->insert(r.client->insertion_request("long2", d));
            }
        }
        for (size_t i = 0; i < dels; ++i) {
            uint64_t d = c.u(round * 300 + n);
            r.server->remove(r.client->removal_request("long", d));
            m.deleted.insert(d);
        }
        if (c.flip()) {
            r.open_client();
            r.open_server();
        }
        size_t v    = c.u(3);
        auto   req  = r.client->search_request("long");
        auto   want = m.search();
        same(c, kJanusVariants[v], 0, janus_search(c, *r.server, req, v), want);
        n = c.edgy(250, 300);
    }
    c.nontrivial();
}

// ----------------------------------------------------------- many keywords at once
// identifiers, tokens and counters of a great many keywords must not collide
template<class Insert, class Reopen, class Search>
void many_keywords(Ctx& c, size_t max, const Insert& insert, const Reopen& reopen, const Search& search)
{
    size_t n = c.weighted({3, 2, 1}) == 0 ? c.edgy(200, std::min<size_t>(max, 4000))
               : c.flip()                 ? c.edgy(200, std::min<size_t>(max, 20000))
                                          : max - c.u(9);
    uint64_t                 seed = c.seed64();
    size_t                   kind = c.u(2);
    std::vector<std::string> kws;
    std::set<std::string>    all;
    for (size_t i = 0; i < n; ++i) {
        uint64_t    x = pbt::splitmix(seed);
        std::string k = kind == 0 ? "keyword" + std::to_string(i) : kind == 1 ? std::to_string(i) : raw_bytes(x);
        if (all.insert(k).second) {
            kws.push_back(k);
        }
    }
    n = kws.size();
    c.note("%zu keywords", n);
    std::vector<std::multiset<uint64_t>> model(n);
    for (size_t i = 0; i < n; ++i) {
        insert(kws[i], i);
        model[i].insert(i);
    }
    for (size_t i = 0; i < 20; ++i) {
        size_t w = c.u(n - 1);
        insert(kws[w], n + i);
        model[w].insert(n + i);
    }
    reopen();
    for (size_t i = 0; i < n; ++i) {
        auto got = search(kws[i]);
        same(c, "search", i, std::multiset<uint64_t>(got.begin(), got.end()), model[i]);
    }
    c.label("keywords", n);
    c.nontrivial();
}
void sophos_many_body(Ctx& c)
{
    auto k      = sophos_keys(c);
    auto cp     = c.dir() + "/client", sp = c.dir() + "/server";
    auto client = open_sophos_client(k, cp);
    auto server = std::make_unique<sophos::SophosServer>(sp, k.pk);
    many_keywords(
        c, 90000, [&](const std::string& w, uint64_t d) { server->insert(client->insertion_request(w, d)); },
        [&] {
            if (c.flip()) {
                client.reset();
                client = open_sophos_client(k, cp);
            }
            server.reset(); // the store is sorted at every read until it is flushed
            server = std::make_unique<sophos::SophosServer>(sp, k.pk);
        },
        [&](const std::string& w) {
            auto q = client->search_request(w);
            return server->search(q);
        });
}
void diana_many_body(Ctx& c)
{
    DianaRig<uint64_t> r(c, c.dir());
    many_keywords(
        c, 90000, [&](const std::string& w, uint64_t d) { r.server->insert(r.client->insertion_request(w, d)); },
        [&] {
            if (c.flip()) {
                r.open_client();
            }
            r.open_server();
        },
        [&](const std::string& w) { return r.server->search(r.client->search_request(w)); });
}
void janus_many_body(Ctx& c)
{
    JanusRig r(c, c.dir());
    many_keywords(
        c, 3000, [&](const std::string& w, uint64_t d) { r.server->insert(r.client->insertion_request(w, d)); },
        [&] {
            if (c.flip()) {
                r.open_client();
            }
            r.open_server();
        },
        [&](const std::string& w) {
            auto q = r.client->search_request(w);
            return r.server->search(q);
        });
}

// ------------------------------------------------------------------ C17: tokens
struct Seen
{
    std::map<diana::update_token_type, std::string> tokens;
    std::set<std::string>                           payloads, masks;
    std::map<diana::update_token_type, std::string> revealed; // derivable by the server
};
template<class T>
std::string raw(const T& v)
{
    return std::string(reinterpret_cast<const char*>(&v), sizeof(v));
}
template<class R>
void record(Ctx& c, Seen& s, const R& req, const std::string& what, const std::string& clear)
{
    auto t = s.tokens.emplace(req.token, what);
    PBT_ASSERT(c, t.second, "%s: the same token was sent for %s", what.c_str(),
               t.first->second.c_str());
    auto rv = s.revealed.find(req.token);
    PBT_ASSERT(c, rv == s.revealed.end(),
               "%s: the server could already derive this token from %s", what.c_str(),
               rv->second.c_str());
    std::string p = raw(req.index);
    PBT_ASSERT(c, s.payloads.insert(p).second, "%s: the same masked payload was sent before",
               what.c_str());
    PBT_ASSERT(c, clear.empty() || p.compare(0, clear.size(), clear) != 0, "%s: the payload is not masked",
               what.c_str());
    if (clear.empty()) {
        return;
    }
    // the mask must be of no use for another entry, and the token must not give it
    std::string m = p.substr(0, clear.size()), tk = raw(req.token);
    for (size_t i = 0; i < m.size(); ++i) {
        m[i] = static_cast<char>(m[i] ^ clear[i]);
    }
    PBT_ASSERT(c, s.masks.insert(m).second, "%s: the same mask was used before", what.c_str());
    PBT_ASSERT(c, tk.find(m) == std::string::npos, "%s: the mask of the payload is sent in the token", what.c_str());
}
void reveal(Seen& s, const diana::SearchRequest& req, size_t payload, const std::string& what)
{
    if (req.add_count == 0) {
        return;
    }
    uint64_t max = req.constrained_rcprf.max_leaf();
    max          = std::min<uint64_t>(max, req.add_count + 2000);
    std::vector<uint8_t> mask(payload);
    for (uint64_t i = 0; i <= max; ++i) {
        auto                     st = req.constrained_rcprf.eval(i);
        diana::update_token_type ut;
        diana::gen_update_token_mask(st.data(), ut, payload, mask.data());
        s.revealed.emplace(ut, what);
    }
}
// the tokens of the already inserted entries are revealed by the search: fine; the
// *next* ones must not be
template<class F>
void token_history(Ctx& c, size_t nkw, const F& step)
{
    size_t ops = 5 + c.u(c.flip() ? 15 : 60);
    for (size_t i = 0; i < ops; ++i) {
        step(c.weighted({10, 4, 1, 3}), c.u(nkw - 1));
    }
}

void tokens_body(Ctx& c)
{
    size_t scheme = c.u(2);
    size_t nkw    = 1 + c.u(3);
    auto   kws    = gen_keywords(c, nkw);
    Seen   seen;
    size_t n = 0, searches = 0, after = 0;
    auto   name = [&](const char* op, size_t w) {
        return std::string(op) + " " + std::to_string(n++) + " on #" + std::to_string(w);
    };
    auto doc = [&]() { return c.flip() ? c.u(3) : 0; };
    if (scheme == 0) {
        auto k      = sophos_keys(c);
        auto client = open_sophos_client(k, c.dir() + "/client");
        // a second client, with other keys, must share nothing with the first
        auto k2      = sophos_keys(c);
        auto client2 = open_sophos_client(k2, c.dir() + "/client2");
        crypto::Tdp tdp(k.pk);
        std::set<std::string> keys, stokens;
        std::map<size_t, std::string> kw_key;
        auto step = [&](size_t op, size_t w) {
            switch (op) {
            case 0: {
                auto d = doc();
                record(c, seen, client->insertion_request(kws[w], d), name("insertion", w), raw(d));
                after += searches > 0;
                break;
            }
            case 1: {
                auto req = client->search_request(kws[w]);
                if (req.add_count == 0) {
                    break;
                }
                ++searches;
                auto key = raw(req.derivation_key);
                auto e   = kw_key.emplace(w, key);
                if (e.second) {
                    PBT_ASSERT(c, keys.insert(key).second, "two keywords share a derivation key");
                } else {
                    PBT_ASSERT(c, e.first->second == key, "the derivation key of a keyword changed");
                }
                auto                          st = req.token;
                crypto::Prf<sophos::kUpdateTokenSize> prf(
                    crypto::Key<32>(req.derivation_key.data()));
                // all the server can do is to go backwards in time, as far as it likes
                for (size_t i = 0; i < req.add_count + 8u; ++i) {
                    sophos::update_token_type                     ut;
                    std::array<uint8_t, sophos::kUpdateTokenSize> mask;
                    sophos::gen_update_token_masks(prf, st.data(), ut, mask);
                    seen.revealed.emplace(ut, "search on #" + std::to_string(w));
                    if (i < req.add_count) {
                        auto f = seen.tokens.find(ut);
                        PBT_ASSERT(c, f != seen.tokens.end(),
                                   "a search request leads to a token that was never sent");
                    }
                    st = tdp.eval(st);
                }
                break;
            }
            case 2:
                client.reset();
                client = open_sophos_client(k, c.dir() + "/client");
                break;
            default: {
                auto d = doc();
                record(c, seen, client2->insertion_request(kws[w], d), name("other client's insertion", w),
                       raw(d));
            }
            }
        };
        token_history(c, nkw, step);
    } else if (scheme == 1) {
        DianaRig<uint64_t> r(c, c.dir());
        Buf32              k1 = c.flip() ? r.k1 : gen_key(c), k2 = gen_key(c);
        // same derivation key only if the keyword is unknown to the first client
        bool shared = k1 == r.k1;
        if (shared) {
            k1 = gen_key(c);
        }
        diana::DianaClient<uint64_t> client2(c.dir() + "/client2", key_of(k1), key_of(k2));
        std::map<size_t, std::string> kw_tok;
        std::set<std::string>         toks;
        auto step = [&](size_t op, size_t w) {
            switch (op) {
            case 0: {
                if (c.chance(1, 4)) {
                    std::list<std::pair<std::string, uint64_t>> l;
                    size_t                                      m = c.u(5);
                    for (size_t i = 0; i < m; ++i) {
                        l.emplace_back(kws[c.u(nkw - 1)], 0);
                    }
                    for (const auto& q : r.client->bulk_insertion_request(l)) {
                        record(c, seen, q, name("bulk insertion", w), raw(uint64_t{0}));
                    }
                } else {
                    auto d = doc();
                    record(c, seen, r.client->insertion_request(kws[w], d), name("insertion", w),
                           raw(d));
                }
                after += searches > 0;
                break;
            }
            case 1: {
                auto req = r.client->search_request(kws[w]);
                if (req.add_count == 0) {
                    break;
                }
                ++searches;
                auto key = raw(req.kw_token);
                auto e   = kw_tok.emplace(w, key);
                if (e.second) {
                    PBT_ASSERT(c, toks.insert(key).second, "two keywords share a keyword token");
                } else {
                    PBT_ASSERT(c, e.first->second == key, "the token of a keyword changed");
                }
                reveal(seen, req, 8, "search on #" + std::to_string(w));
                break;
            }
            case 2: r.open_client(); break;
            default: {
                auto d = doc();
                record(c, seen, client2.insertion_request(kws[w], d),
                       name("other client's insertion", w), raw(d));
            }
            }
        };
        token_history(c, nkw, step);
    } else {
        JanusRig r(c, c.dir());
        std::map<size_t, std::string> kw_tok;
        std::set<std::string>         toks;
        auto step = [&](size_t op, size_t w) {
            switch (op) {
            case 0: {
                auto d = doc();
                record(c, seen, r.client->insertion_request(kws[w], d), name("insertion", w), raw(d));
                after += searches > 0;
                break;
            }
            case 1: {
                auto req = r.client->search_request(kws[w]);
                ++searches;
                auto key = raw(req.keyword_token);
                auto e   = kw_tok.emplace(w, key);
                if (e.second) {
                    PBT_ASSERT(c, toks.insert(key).second, "two keywords share a keyword token");
                } else {
                    PBT_ASSERT(c, e.first->second == key, "the token of a keyword changed");
                }
                reveal(seen, req.insertion_search_request, 32, "search on #" + std::to_string(w));
                reveal(seen, req.deletion_search_request, 32, "search on #" + std::to_string(w));
                break;
            }
            case 2: r.open_client(); break;
            default: {
                auto d = doc();
                record(c, seen, r.client->removal_request(kws[w], d), name("deletion", w), "");
                after += searches > 0;
            }
            }
        };
        token_history(c, nkw, step);
    }
    c.nontrivial(after >= 2);
    c.label(scheme == 0 ? "sophos" : scheme == 1 ? "diana" : "janus");
    c.label("updates", seen.tokens.size());
    c.label("searches", searches);
}

// -------------------------------------------------------------- C22: concurrency
struct Log
{
    std::mutex                                m;
    std::vector<std::pair<uint64_t, uint64_t>> done; // (end time, doc)
};
std::atomic<uint64_t> g_clock{0};

// threads insert distinct documents and search; `ins(w, doc)` and `find(w)`
template<class Ins, class Find>
void concurrent(Ctx& c, size_t nkw, bool same_kw, const Ins& ins, const Find& find)
{
    size_t nt = 2 + c.u(4), searchers = c.u(2), per = 4 + c.u(30);
    uint64_t seed = c.seed64();
    struct PerKw
    {
        std::mutex                    m;
        std::map<uint64_t, uint64_t>  end; // doc -> time its insertion ended
        std::set<uint64_t>            begun;
    };
    std::vector<PerKw>       kw(nkw);
    std::atomic<bool>        stop{false}, go{false};
    std::mutex               em;
    std::string              err;
    auto                     fail = [&](const std::string& s) {
        std::lock_guard<std::mutex> l(em);
        if (err.empty()) {
            err = s;
        }
    };
    std::vector<std::thread> ts, ss;
    for (size_t t = 0; t < nt; ++t) {
        ts.emplace_back([&, t] {
            uint64_t rng = pbt::mix(seed, t);
            while (!go) {
            }
            try {
                for (size_t i = 0; i < per; ++i) {
                    size_t   w = same_kw ? pbt::splitmix(rng) % nkw : t % nkw;
                    uint64_t d = (t << 32) | i;
                    {
                        std::lock_guard<std::mutex> l(kw[w].m);
                        kw[w].begun.insert(d);
                    }
                    ins(w, d);
                    std::lock_guard<std::mutex> l(kw[w].m);
                    kw[w].end[d] = ++g_clock;
                }
            } catch (const std::exception& e) {
                fail(std::string("an insertion failed: ") + e.what());
            }
        });
    }
    auto one_search = [&](size_t w) {
        uint64_t t0 = ++g_clock;
        auto     r  = find(w);
        std::set<uint64_t> rs(r.begin(), r.end());
        if (rs.size() != r.size()) {
            fail("a search returned a document twice");
        }
        std::lock_guard<std::mutex> l(kw[w].m);
        for (auto d : rs) {
            if (kw[w].begun.count(d) == 0) {
                fail("a search returned a document that was not inserted");
            }
        }
        for (const auto& e : kw[w].end) {
            if (e.second < t0 && rs.count(e.first) == 0) {
                fail("a search missed a document whose insertion had returned before it started");
            }
        }
    };
    for (size_t t = 0; t < searchers; ++t) {
        ss.emplace_back([&, t] {
            uint64_t rng = pbt::mix(seed, 1000 + t);
            while (!go) {
            }
            try {
                for (int i = 0; i < 25 && !stop; ++i) {
                    one_search(pbt::splitmix(rng) % nkw);
                }
            } catch (const std::exception& e) {
                fail(std::string("a search failed: ") + e.what());
            }
        });
    }
    chaos::start(seed, static_cast<uint32_t>(c.u(2)));
    go = true;
    for (auto& t : ts) {
        t.join();
    }
    stop = true;
    for (auto& t : ss) {
        t.join();
    }
    chaos::stop();
    PBT_ASSERT(c, err.empty(), "%s", err.c_str());
    for (size_t w = 0; w < nkw; ++w) {
        auto                    r = find(w);
        std::multiset<uint64_t> want(kw[w].begun.begin(), kw[w].begun.end());
        same(c, "a search after concurrent insertions", w, std::multiset<uint64_t>(r.begin(), r.end()), want);
    }
    c.label("insertions", nt * per);
    c.nontrivial(same_kw || searchers > 0);
}

void concurrent_body(Ctx& c)
{
    size_t scheme = c.u(2);
    bool   same_kw = scheme == 2 ? false : c.chance(2, 3);
    size_t nkw     = 1 + c.u(3);
    if (!same_kw) {
        nkw = 6;
    }
    std::vector<std::string> kws;
    for (size_t i = 0; i < nkw; ++i) {
        kws.push_back("keyword" + std::to_string(i));
    }
    c.label(std::string(scheme == 0 ? "sophos" : scheme == 1 ? "diana" : "janus")
            + (same_kw ? ", shared keywords" : ", own keywords"));
    if (scheme == 0) {
        auto                 k      = sophos_keys(c);
        auto                 client = open_sophos_client(k, c.dir() + "/client");
        sophos::SophosServer server(c.dir() + "/server", k.pk);
        concurrent(
            c, nkw, same_kw,
            [&](size_t w, uint64_t d) { server.insert(client->insertion_request(kws[w], d)); },
            [&](size_t w) {
                auto req = client->search_request(kws[w]);
                return server.search(req);
            });
    } else if (scheme == 1) {
        DianaRig<uint64_t> r(c, c.dir());
        bool               bulk = c.chance(1, 3);
        concurrent(
            c, nkw, same_kw,
            [&](size_t w, uint64_t d) {
                if (bulk) {
                    for (auto& q : r.client->bulk_insertion_request({{kws[w], d}})) {
                        r.server->insert(q);
                    }
                } else {
                    r.server->insert(r.client->insertion_request(kws[w], d));
                }
            },
            [&](size_t w) { return r.server->search(r.client->search_request(kws[w])); });
    } else {
        // one thread at a time per keyword: concurrent keywords only
        JanusRig                r(c, c.dir());
        std::vector<std::mutex> locks(nkw);
        concurrent(
            c, nkw, same_kw,
            [&](size_t w, uint64_t d) {
                std::lock_guard<std::mutex> l(locks[w]);
                r.server->insert(r.client->insertion_request(kws[w], d));
            },
            [&](size_t w) {
                std::lock_guard<std::mutex> l(locks[w]);
                auto                        req = r.client->search_request(kws[w]);
                return r.server->search(req);
            });
    }
}

} // namespace

int main(int argc, char** argv)
{
    if (!getenv("PBT_LOG")) {
        std::cerr.rdbuf(nullptr);
        std::cout.rdbuf(nullptr);
        sse::logger::set_logging_level(spdlog::level::off);
    }
    sse::logger::logger(); // created before the threads
    std::vector<pbt::Check> checks;
    auto add = [&](const char* p, const char* n, const char* rule, void (*body)(Ctx&), uint64_t q,
                   uint64_t t, bool sched) {
        pbt::Check k;
        k.property       = p;
        k.name           = n;
        k.rule           = rule;
        k.body           = body;
        k.quick_cases    = q;
        k.thorough_cases = t;
        k.needs_dir      = true;
        k.scheduled      = sched;
        checks.push_back(k);
    };
    add("C11", "history",
        "random histories of insertions (delivered in any order), the six kinds of search and restarts over "
        "1..5 keywords; non-trivial: a search with several matches",
        sophos_body, 3000, 60000, false);
    add("C11", "large", "one keyword with 250..900 documents, searched in the six ways; all non-trivial",
        sophos_large_body, 24, 600, false);
    add("C12", "large",
        "one keyword with 250..65600 documents, searched in the six ways and deleted; all non-trivial",
        diana_large_body, 32, 1000, false);
    add("C13", "large", "one keyword with 250..700 documents and up to 12 deletions; all non-trivial",
        janus_large_body, 24, 600, false);
    add("C11", "many", "200..90000 keywords, all of them inserted then searched; all non-trivial", sophos_many_body, 12, 200,
        false);
    add("C12", "many", "200..90000 keywords, all of them inserted then searched; all non-trivial", diana_many_body, 12, 200,
        false);
    add("C13", "many", "200..3000 keywords, all of them inserted then searched; all non-trivial", janus_many_body, 10, 200,
        false);
    add("C12", "history",
        "random histories of insertions, bulk insertions, removals, the six kinds of search (deleting or not) and "
        "restarts, 8-byte documents; non-trivial: a search with several matches",
        diana_body, 3500, 60000, false);
    add("C12", "history_wide", "as history, with 24-byte documents", diana_wide_body, 1000, 20000,
        false);
    add("C13", "history",
        "random histories of insertions, deletions (mostly of present documents), the four kinds of search and "
        "restarts over 1..4 keywords; non-trivial: a search with documents and deletions to account for",
        janus_body, 1800, 40000, false);
    add("C17", "tokens",
        "random histories on two clients with different keys; every token the server can derive from the search "
        "requests is computed; non-trivial: at least two updates after a search",
        tokens_body, 2000, 60000, false);
    add("C22", "concurrent",
        "2..6 inserting and 0..2 searching threads on shared or separate keywords, perturbed; non-trivial: a "
        "shared keyword or a concurrent search",
        concurrent_body, 2500, 60000, true);
#if defined(__SANITIZE_ADDRESS__)
    std::vector<pbt::Check> kept;
    for (auto& k : checks) {
        if (k.name.compare(0, 7, "history") == 0 || k.name == "concurrent" || k.name == "tokens") {
            k.name += "_asan";
            k.quick_cases /= 10;
            k.thorough_cases /= 8;
            kept.push_back(k);
        }
    }
    checks = kept;
#endif
    return pbt::Engine(argc, argv, checks).run();
}
