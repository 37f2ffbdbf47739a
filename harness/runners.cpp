// C21: client and server runners over an in-process RPC stand-in
// C24: malformed requests are refused and leave the server as it was
#include "pbt.hpp"

#define DIANA_CLIENT_RUNNER_CPP
#define SOPHOS_CLIENT_RUNNER_CPP
#include "protos/diana.grpc.pb.h"
#include "protos/sophos.grpc.pb.h"

#include <sse/runners/diana/client_runner.hpp>
#include <sse/runners/diana/server_runner.hpp>
#include <sse/runners/sophos/sophos_client_runner.hpp>
#include <sse/runners/sophos/sophos_server_runner.hpp>
#include <sse/schemes/utils/logger.hpp>
#include <sse/schemes/utils/utils.hpp>

#include <sys/stat.h>

#include <fstream>
#include <iostream>
#include <mutex>
#include <nlohmann/json.hpp>
#include <set>
#include <sstream>
#include <thread>
#include <unistd.h>

#define CHAOS_WRAP
#include "chaos.hpp"

using pbt::Ctx;
using Docs = std::multiset<uint64_t>;

namespace {

struct SophosT
{
    static constexpr const char* name = "sophos";
    using Client                      = sse::sophos::SophosClientRunner;
    using Server                      = sse::sophos::SophosServerRunner;
    using Rpc                         = sse::sophos::Sophos;
    using Setup                       = sse::sophos::SetupMessage;
    using Search                      = sse::sophos::SearchRequestMessage;
    using Reply                       = sse::sophos::SearchReply;
    using Update                      = sse::sophos::UpdateRequestMessage;
    static constexpr bool bulk_list   = false;
    static std::vector<std::string> client_files()
    {
        return {"tdp_sk.key", "derivation_master.key", "rsa_prg.key"};
    }
    static std::string server_file() { return "tdp_pk.key"; }
    static void        set_key(Setup& m, const std::string& k) { m.set_public_key(k); }
    static std::string good_key() { return "TDP-PUBLIC-KEY:" + std::string(32, 'k'); }
    static void insert_list(Client&, const std::list<std::pair<std::string, uint64_t>>&) {}
};
struct DianaT
{
    static constexpr const char* name = "diana";
    using Client                      = sse::diana::DianaClientRunner;
    using Server                      = sse::diana::DianaServerRunner;
    using Rpc                         = sse::diana::Diana;
    using Setup                       = sse::diana::SetupMessage;
    using Search                      = sse::diana::SearchRequestMessage;
    using Reply                       = sse::diana::SearchReply;
    using Update                      = sse::diana::UpdateRequestMessage;
    static constexpr bool bulk_list   = true;
    static std::vector<std::string> client_files()
    {
        return {"master_derivation.key", "kw_token_master.key", "wrapping.key"};
    }
    static std::string server_file() { return "wrapping.key"; }
    static void        set_key(Setup& m, const std::string& k) { m.set_wrapping_key(k); }
    static std::string good_key() { return std::string(32, 'k'); }
    static void        insert_list(Client& c, const std::list<std::pair<std::string, uint64_t>>& l)
    {
        c.insert_in_session(l);
    }
};

std::string show(const Docs& s)
{
    std::string o = "{";
    size_t      n = 0;
    for (auto x : s) {
        if (++n > 12) {
            o += " ...";
            break;
        }
        o += " " + std::to_string(x);
    }
    return o + " } (" + std::to_string(s.size()) + ")";
}
uint64_t gen_doc(Ctx& c)
{
    return c.weighted({3, 1, 1}) == 0 ? c.u(9) : c.edgy(0, ~0ULL);
}
// keywords that can be written in a JSON file
std::vector<std::string> gen_keywords(Ctx& c, size_t n)
{
    std::vector<std::string> v;
    while (v.size() < n) {
        std::string k;
        switch (c.weighted({4, 1, 1, 1})) {
        case 0: k = "kw" + std::to_string(c.u(20)); break;
        case 1: k = ""; break;
        case 2: k = "\xC3\xA9t\xC3\xA9 \"" + std::to_string(c.u(9)) + "\\\n"; break;
        default: k = std::string(60 + c.u(100), static_cast<char>('a' + c.u(3))); break;
        }
        while (std::find(v.begin(), v.end(), k) != v.end()) {
            k += "#";
        }
        v.push_back(k);
    }
    return v;
}
std::string slurp(const std::string& p)
{
    std::ifstream     in(p, std::ios::binary);
    std::stringstream s;
    s << in.rdbuf();
    return s.str();
}
void spit(const std::string& p, const std::string& s)
{
    std::ofstream(p, std::ios::binary | std::ios::trunc) << s;
}
template<class F>
bool throws(F f)
{
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}

template<class S>
struct Rig
{
    Ctx&                                c;
    std::string                         cp, sp, addr;
    std::unique_ptr<typename S::Client> client;
    std::unique_ptr<typename S::Server> server;
    Rig(Ctx& ctx) : c(ctx), cp(ctx.dir() + "/client"), sp(ctx.dir() + "/server"), addr(ctx.dir() + ":1") {}
    ~Rig()
    {
        client.reset();
        server.reset();
    }
    std::shared_ptr<grpc::Channel> channel()
    {
        return grpc::CreateChannel(addr, grpc::InsecureChannelCredentials());
    }
    void open_client() { client = std::make_unique<typename S::Client>(channel(), cp); }
    void open_server()
    {
        if (c.chance(1, 4)) {
            grpc::ServerBuilder b;
            b.AddListeningPort(addr, grpc::InsecureServerCredentials());
            server = std::make_unique<typename S::Server>(b, sp);
        } else {
            server = std::make_unique<typename S::Server>(addr, sp);
        }
    }
    std::unique_ptr<typename S::Rpc::Stub> stub() { return S::Rpc::NewStub(channel()); }
    // raw calls
    grpc::Status raw_setup(const std::string& key)
    {
        grpc::ClientContext     x;
        google::protobuf::Empty e;
        typename S::Setup       m;
        S::set_key(m, key);
        return stub()->setup(&x, m, &e);
    }
    grpc::Status raw_insert(const typename S::Update& m)
    {
        grpc::ClientContext     x;
        google::protobuf::Empty e;
        return stub()->insert(&x, m, &e);
    }
    grpc::Status raw_bulk(const std::vector<typename S::Update>& ms)
    {
        grpc::ClientContext     x;
        google::protobuf::Empty e;
        auto                    st = stub();
        auto                    w  = st->bulk_insert(&x, &e);
        for (const auto& m : ms) {
            w->Write(m);
        }
        w->WritesDone();
        return w->Finish();
    }
    grpc::Status raw_search(const typename S::Search& m, std::vector<uint64_t>* out = nullptr)
    {
        grpc::ClientContext x;
        auto                st = stub();
        auto                r  = st->search(&x, m);
        typename S::Reply   rep;
        while (r->Read(&rep)) {
            if (out != nullptr) {
                out->push_back(rep.result());
            }
        }
        return r->Finish();
    }
};

// every call but the setup is refused by a server that is not set up
template<class S>
void not_set_up(Ctx& c, Rig<S>& r, const char* when)
{
    typename S::Search s;
    typename S::Update u;
    s.set_add_count(static_cast<uint32_t>(c.u(3)));
    u.set_index(1);
    u.set_update_token(std::string(16, 'x'));
    PBT_ASSERT(c, !r.raw_search(s).ok(), "%s: a search is accepted", when);
    PBT_ASSERT(c, !r.raw_insert(u).ok(), "%s: an insertion is accepted", when);
    PBT_ASSERT(c, !r.raw_bulk({u}).ok(), "%s: a bulk insertion is accepted", when);
}

template<class S>
void history(Ctx& c)
{
    c.label(S::name);
    sse::crypto::shim::random_state() = c.seed64();
    grpc::shim::misuses()             = 0;
    size_t nkw                        = 1 + c.u(3);
    auto   kws                        = gen_keywords(c, nkw + 1); // the last one is never inserted
    // in an open session, or in one that broke: may or may not be there
    std::vector<Docs> model(nkw + 1), pending(nkw + 1), maybe(nkw + 1);
    bool              session = false, broken = false;
    Rig<S>            r(c);
    chaos::start(c.seed64(), static_cast<uint32_t>(c.u(1)));

    r.open_server();
    if (c.chance(1, 4)) {
        not_set_up(c, r, "before the setup");
    }
    switch (c.weighted({8, 1, 1})) {
    case 1: // something appeared where the server wants to create its directory
        spit(r.sp, "x");
        PBT_ASSERT(c, throws([&] { r.open_client(); }),
                   "a client can be set up on a server that cannot create its directory");
        unlink(r.sp.c_str());
        sse::utility::remove_directory(r.cp);
        break;
    case 2:
        spit(r.cp, "x");
        PBT_ASSERT(c, throws([&] { r.open_client(); }), "a client opened a file");
        unlink(r.cp.c_str());
        not_set_up(c, r, "after a client failed");
        break;
    default: break;
    }
    r.open_client();

    auto insert_one = [&](size_t w, uint64_t d) {
        if (session && broken) {
            return; // lost, with the session
        }
        if (session) {
            pending[w].insert(d);
        } else if (r.server) {
            model[w].insert(d);
        }
    };
    auto end_session = [&] {
        for (size_t w = 0; w <= nkw; ++w) {
            model[w].insert(pending[w].begin(), pending[w].end());
            pending[w].clear();
        }
        session = broken = false;
    };
    size_t searches = 0;
    auto   search   = [&](size_t w) {
        if (r.server) {
            bool async = c.flip();
            r.server->set_async_search(async);
            c.label(async ? "asynchronous search" : "synchronous search");
        }
        std::list<uint64_t> cb, res;
        bool                with_cb = c.flip();
        c.note("search #%zu", w);
        if (with_cb) {
            res = r.client->search(kws[w], [&](uint64_t v) { cb.push_back(v); });
            PBT_ASSERT(c, cb == res, "the callback got %zu results, %zu were returned", cb.size(),
                       res.size());
        } else {
            res = r.client->search(kws[w]);
        }
        Docs got(res.begin(), res.end());
        if (!r.server) {
            PBT_ASSERT(c, got.empty(), "a search found %s on a server that is down",
                       show(got).c_str());
            return;
        }
        Docs most = model[w];
        most.insert(pending[w].begin(), pending[w].end());
        most.insert(maybe[w].begin(), maybe[w].end());
        PBT_ASSERT(c,
                   std::includes(got.begin(), got.end(), model[w].begin(), model[w].end())
                       && std::includes(most.begin(), most.end(), got.begin(), got.end()),
                   "keyword #%zu: the search returned %s instead of %s%s", w, show(got).c_str(),
                   show(model[w]).c_str(),
                   most.size() == model[w].size() ? ""
                                                  : (" and some of " + show(most)).c_str());
        ++searches;
        if (model[w].size() > 1) {
            c.nontrivial();
        }
    };
    auto in_session = [&](size_t w, uint64_t d, bool list) {
        bool threw = throws([&] {
            if (list) {
                S::insert_list(*r.client, {{kws[w], d}, {kws[w], d ^ 1}});
            } else {
                r.client->insert_in_session(kws[w], d);
            }
        });
        PBT_ASSERT(c, threw == !session, "an insertion in a session that is %s is %s",
                   session ? "up" : "not up", threw ? "refused" : "accepted");
        if (session) {
            insert_one(w, d);
            if (list) {
                insert_one(w, d ^ 1);
            }
        } else {
            c.label("insertion out of a session");
        }
    };

    size_t ops = 4 + c.u(c.flip() ? 10 : 35);
    for (size_t i = 0; i < ops; ++i) {
        switch (c.weighted({8, 3, 7, 3, 4, 3, 2, 2, 1, 1, 1, 1, 1})) {
        case 0: {
            size_t   w = c.u(nkw - 1);
            uint64_t d = gen_doc(c);
            c.note("insert #%zu %llu", w, static_cast<unsigned long long>(d));
            r.client->insert(kws[w], d);
            insert_one(w, d);
            if (!r.server && !session) {
                c.label("insertion while the server is down");
            }
            break;
        }
        case 1: {
            size_t w = c.u(nkw - 1), n = 2 + c.u(c.chance(1, 6) ? 60 : 6) + (c.chance(1, 40) ? 255 : 0);
            c.note("insert #%zu, %zu documents", w, n);
            for (size_t j = 0; j < n; ++j) {
                uint64_t d = gen_doc(c);
                r.client->insert(kws[w], d);
                insert_one(w, d);
            }
            break;
        }
        case 2: search(c.chance(1, 8) ? nkw : c.u(nkw - 1)); break;
        case 3:
            c.note("start session");
            r.client->start_update_session();
            if (!session) {
                session = true;
                broken  = !r.server;
            }
            break;
        case 4: {
            size_t   w    = c.u(nkw - 1);
            uint64_t d    = gen_doc(c);
            bool     list = S::bulk_list && c.flip();
            c.note("insert in session #%zu %llu%s", w, static_cast<unsigned long long>(d),
                   list ? " (list)" : "");
            in_session(w, d, list);
            break;
        }
        case 5:
            c.note("end session");
            r.client->end_update_session();
            end_session();
            break;
        case 6: {
            // bulk load
            size_t                                       kind = c.weighted({5, 1, 2});
            std::vector<std::pair<size_t, std::vector<unsigned>>> lists;
            std::string                                  text = "{";
            for (size_t w = 0; w < nkw; ++w) {
                if (c.chance(1, 4)) {
                    continue;
                }
                std::vector<unsigned> l(c.u(c.chance(1, 8) ? 80 : 6));
                for (auto& x : l) {
                    x = static_cast<unsigned>(c.edgy(0, 0xFFFFFFFFu));
                }
                text += (lists.empty() ? "" : ",") + nlohmann::json(kws[w]).dump() + ": "
                        + nlohmann::json(l).dump();
                lists.emplace_back(w, l);
            }
            text += "}";
            if (kind == 2) {
                text = text.substr(0, text.size() - 1)
                       + (c.flip() ? ", \"oops\": [1, tru" : c.flip() ? "" : ", \"x\": {}}");
            }
            std::string p = c.dir() + "/index" + std::to_string(i) + ".json";
            if (kind != 1) {
                spit(p, text);
            }
            bool was = session;
            c.note("load %s", kind == 0 ? text.c_str() : kind == 1 ? "a missing file" : "a bad file");
            bool ok = r.client->load_inverted_index(p);
            PBT_ASSERT(c, ok == (kind == 0), "loading %s reports %s",
                       kind == 0 ? "an index" : kind == 1 ? "a missing file" : "a bad file",
                       ok ? "success" : "failure");
            c.label(kind == 0 ? "load" : "failed load");
            bool lost = was ? broken : !r.server;
            if (kind != 1 && !lost) {
                for (const auto& l : lists) {
                    auto& to = kind == 0 ? (was ? pending : model)[l.first] : maybe[l.first];
                    to.insert(l.second.begin(), l.second.end());
                }
            }
            if (kind == 0) {
                end_session(); // a load ends the session
            } else {
                // a failed one leaves the session as it was
                bool up = !throws([&] { r.client->insert_in_session(kws[0], 77); });
                PBT_ASSERT(c, up == was, "the session was %s before a load that failed, it is %s after it",
                           was ? "up" : "not up", up ? "up" : "not up");
                if (up) {
                    insert_one(0, 77);
                }
            }
            break;
        }
        case 7: {
            if (session) {
                if (!c.chance(1, 5)) {
                    break;
                }
                // an abandoned session
                for (size_t w = 0; w < nkw; ++w) {
                    maybe[w].insert(pending[w].begin(), pending[w].end());
                    pending[w].clear();
                }
                session = broken = false;
                c.label("abandoned session");
            }
            c.note("restart client");
            r.client.reset();
            r.open_client();
            c.label("client restart");
            break;
        }
        case 8: {
            if (session && !broken) {
                break;
            }
            if (r.server) {
                c.note("server down");
                if (c.flip()) {
                    r.server->shutdown();
                }
                r.server.reset();
                if (c.chance(3, 4)) {
                    c.note("server up");
                    r.open_server();
                }
                c.label("server restart");
            } else {
                r.open_server();
            }
            break;
        }
        case 9: {
            if (!r.server) {
                break;
            }
            c.note("another setup");
            if (c.flip()) {
                PBT_ASSERT(c, r.raw_setup(S::good_key()).error_code() == grpc::FAILED_PRECONDITION,
                           "a second setup is accepted");
            } else {
                auto p = c.dir() + "/other" + std::to_string(i);
                PBT_ASSERT(c, throws([&] { typename S::Client o(r.channel(), p); }),
                           "a second client can be set up on a server");
            }
            break;
        }
        case 10: {
            // an unusable client directory
            if (session) {
                break;
            }
            r.client.reset();
            auto fs = S::client_files();
            auto f  = r.cp + "/" + fs[c.u(fs.size() - 1)];
            auto s  = slurp(f);
            size_t k = c.u(3);
            c.note("damaged client directory (%zu)", k);
            if (k == 0) {
                unlink(f.c_str());
            } else if (k == 1) {
                spit(f, s.substr(0, c.u(s.size() - 1)));
            } else if (k == 2) {
                spit(f, s + c.bytes(1 + c.u(3)));
            } else {
                rename((r.cp + "/counters.dat").c_str(), (r.cp + "/moved").c_str());
            }
            PBT_ASSERT(c, throws([&] { r.open_client(); }), "a damaged client directory is accepted");
            r.client.reset();
            if (k == 3) {
                PBT_ASSERT(c, !sse::utility::exists(r.cp + "/counters.dat"),
                           "a refused directory was modified");
                rename((r.cp + "/moved").c_str(), (r.cp + "/counters.dat").c_str());
            } else {
                spit(f, s);
            }
            r.open_client();
            c.label("damaged client");
            break;
        }
        case 11: {
            if ((session && !broken) || !r.server) {
                break;
            }
            r.server.reset();
            auto   f = r.sp + "/" + S::server_file();
            auto   s = slurp(f);
            size_t k = c.u(3);
            c.note("damaged server directory (%zu)", k);
            if (k == 0) {
                unlink(f.c_str());
            } else if (k == 1) {
                spit(f, s.substr(0, c.u(s.size() - 1)));
            } else if (k == 2) {
                spit(f, s + c.bytes(1 + c.u(3)));
            } else {
                rename((r.sp + "/pairs.dat").c_str(), (r.sp + "/moved").c_str());
            }
            PBT_ASSERT(c, throws([&] { r.open_server(); }), "a damaged server directory is accepted");
            r.server.reset();
            if (k == 3) {
                rename((r.sp + "/moved").c_str(), (r.sp + "/pairs.dat").c_str());
            } else {
                spit(f, s);
            }
            r.open_server();
            c.label("damaged server");
            break;
        }
        default: {
            if ((session && !broken) || !r.server) {
                break;
            }
            // wait() returns when the server is shut down
            c.note("wait and shutdown");
            std::atomic<bool> done{false};
            std::thread       t([&] {
                r.server->wait();
                done = true;
            });
            if (c.flip()) {
                search(c.u(nkw - 1));
            }
            PBT_ASSERT(c, !done, "wait() returned while the server is up");
            r.server->shutdown();
            t.join();
            r.server.reset();
            r.open_server();
        }
        }
    }
    c.note("final searches");
    if (session) {
        r.client->end_update_session();
        end_session();
    }
    if (!r.server) {
        r.open_server();
    }
    if (c.flip()) {
        r.client.reset();
        r.server.reset();
        r.open_server();
        r.open_client();
    }
    for (size_t w = 0; w <= nkw; ++w) {
        search(w);
    }
    chaos::stop();
    PBT_ASSERT(c, grpc::shim::misuses() == 0, "%d forbidden uses of the RPC library",
               grpc::shim::misuses().load());
    c.label("searches", searches);
}
void history_body(Ctx& c)
{
    c.flip() ? history<SophosT>(c) : history<DianaT>(c);
}

// several threads share one client
std::atomic<uint64_t> g_clock{0};
template<class S>
void concurrent(Ctx& c)
{
    sse::crypto::shim::random_state() = c.seed64();
    grpc::shim::misuses()             = 0;
    Rig<S> r(c);
    r.open_server();
    r.open_client();
    bool async = c.flip(), session = c.flip();
    r.server->set_async_search(async);
    size_t nkw = 1 + c.u(2), nt = 2 + c.u(3), per = 3 + c.u(15), ns = c.u(2);
    c.note("%s, %zu keywords, %zu threads x %zu insertions%s, %zu searchers, %s", S::name, nkw, nt, per,
           session ? " in a session" : "", ns, async ? "asynchronous" : "synchronous");
    c.label(std::string(S::name) + (session ? ", session" : ", no session"));
    uint64_t seed = c.seed64();
    struct PerKw
    {
        std::mutex                   m;
        std::map<uint64_t, uint64_t> end;
        std::set<uint64_t>           begun;
    };
    std::vector<PerKw> kw(nkw);
    auto               name = [](size_t w) { return "keyword" + std::to_string(w); };
    std::mutex         em;
    std::string        err;
    std::atomic<bool>  go{false}, stop{false};
    auto               fail = [&](const std::string& s) {
        std::lock_guard<std::mutex> l(em);
        if (err.empty()) {
            err = s;
        }
    };
    if (session) {
        r.client->start_update_session();
    }
    std::vector<std::thread> ts, ss;
    for (size_t t = 0; t < nt; ++t) {
        ts.emplace_back([&, t] {
            uint64_t rng = pbt::mix(seed, t);
            while (!go) {
            }
            try {
                for (size_t i = 0; i < per; ++i) {
                    size_t   w = pbt::splitmix(rng) % nkw;
                    uint64_t d = ((t + 1) << 32) | i;
                    bool     two = S::bulk_list && session && pbt::splitmix(rng) % 3 == 0;
                    {
                        std::lock_guard<std::mutex> l(kw[w].m);
                        kw[w].begun.insert(d);
                        if (two) {
                            kw[w].begun.insert(d | 0x80000000u);
                        }
                    }
                    if (two) {
                        S::insert_list(*r.client, {{name(w), d}, {name(w), d | 0x80000000u}});
                    } else if (session && pbt::splitmix(rng) % 2 == 0) {
                        r.client->insert_in_session(name(w), d);
                    } else {
                        r.client->insert(name(w), d);
                    }
                    if (!session) {
                        std::lock_guard<std::mutex> l(kw[w].m);
                        kw[w].end[d] = ++g_clock;
                    }
                }
            } catch (const std::exception& e) {
                fail(std::string("an insertion failed: ") + e.what());
            }
        });
    }
    for (size_t t = 0; t < ns; ++t) {
        ss.emplace_back([&, t] {
            uint64_t rng = pbt::mix(seed, 1000 + t);
            while (!go) {
            }
            try {
                for (int i = 0; i < 10 && !stop; ++i) {
                    size_t             w  = pbt::splitmix(rng) % nkw;
                    uint64_t           t0 = ++g_clock;
                    auto               l  = r.client->search(name(w));
                    std::set<uint64_t> rs(l.begin(), l.end());
                    if (rs.size() != l.size()) {
                        fail("a search returned a document twice");
                    }
                    std::lock_guard<std::mutex> g(kw[w].m);
                    for (auto d : rs) {
                        if (kw[w].begun.count(d) == 0) {
                            fail("a search returned document " + std::to_string(d)
                                 + ", that was not inserted");
                        }
                    }
                    for (const auto& e : kw[w].end) {
                        if (e.second < t0 && rs.count(e.first) == 0) {
                            fail("a search missed a document whose insertion had returned");
                        }
                    }
                }
            } catch (const std::exception& e) {
                fail(std::string("a search failed: ") + e.what());
            }
        });
    }
    chaos::start(seed, static_cast<uint32_t>(c.u(2)));
    go = true;
    for (auto& t : ts) {
        t.join();
    }
    stop = true;
    for (auto& t : ss) {
        t.join();
    }
    chaos::stop();
    PBT_ASSERT(c, err.empty(), "%s", err.c_str());
    if (session) {
        r.client->end_update_session();
    }
    for (size_t w = 0; w < nkw; ++w) {
        auto l = r.client->search(name(w));
        Docs got(l.begin(), l.end()), want(kw[w].begun.begin(), kw[w].begun.end());
        PBT_ASSERT(c, got == want, "keyword #%zu: %s found after concurrent insertions of %s", w,
                   show(got).c_str(), show(want).c_str());
    }
    PBT_ASSERT(c, grpc::shim::misuses() == 0, "%d forbidden uses of the RPC library",
               grpc::shim::misuses().load());
    c.nontrivial();
}
void concurrent_body(Ctx& c)
{
    c.flip() ? concurrent<SophosT>(c) : concurrent<DianaT>(c);
}

// -------------------------------------------------------------------- C24
std::string bad_size(Ctx& c, const std::string& good)
{
    switch (c.weighted({2, 3, 3, 1})) {
    case 0: return "";
    case 1: return good.substr(0, c.u(good.size() - 1));
    case 2: return good + c.bytes(1 + c.u(40));
    default: return c.bytes(good.size() + 1 + c.u(5000));
    }
}
template<class S>
typename S::Search make_request(Rig<S>& r, const std::string& kw);
template<>
sse::sophos::SearchRequestMessage make_request(Rig<SophosT>& r, const std::string& kw)
{
    return sse::sophos::request_to_message(r.client->client().search_request(kw));
}
template<>
sse::diana::SearchRequestMessage make_request(Rig<DianaT>& r, const std::string& kw)
{
    auto k = slurp(r.cp + "/wrapping.key");
    auto w = std::make_unique<sse::crypto::Wrapper>(
        sse::crypto::Key<32>(reinterpret_cast<uint8_t*>(&k[0])));
    return sse::diana::request_to_message(w, r.client->client().search_request(kw));
}
// a valid request with one bad field
void damage(Ctx& c, sse::sophos::SearchRequestMessage& m)
{
    // nobody looks at the fields of a request that expects no result
    if (c.flip()) {
        m.set_search_token(bad_size(c, m.search_token()));
    } else {
        m.set_derivation_key(bad_size(c, m.derivation_key()));
    }
}
void damage(Ctx& c, sse::diana::SearchRequestMessage& m)
{
    auto rep = m.constrained_rcprf_rep();
    switch (c.u(2)) {
    case 0: m.set_kw_token(bad_size(c, m.kw_token())); break;
    case 1: m.set_constrained_rcprf_rep(bad_size(c, rep)); break;
    default:
        // a forged token
        rep[c.u(rep.size() - 1)] ^= static_cast<char>(1 + c.u(254));
        m.set_constrained_rcprf_rep(rep);
    }
}
template<class S>
void malformed(Ctx& c)
{
    c.label(S::name);
    sse::crypto::shim::random_state() = c.seed64();
    Rig<S> r(c);
    r.open_server();
    // setups with an invalid key
    for (size_t i = c.u(2); i > 0; --i) {
        auto key = bad_size(c, S::good_key());
        c.note("setup with a key of %zu bytes", key.size());
        PBT_ASSERT(c, !r.raw_setup(key).ok(), "a setup with a key of %zu bytes is accepted", key.size());
        not_set_up(c, r, "after a refused setup");
        if (sse::utility::exists(r.sp)) {
            c.label("directory left behind");
            r.server.reset();
            sse::utility::remove_directory(r.sp);
            r.open_server();
        }
        c.label("refused setup");
    }
    r.open_client();
    size_t            nkw = 1 + c.u(2);
    std::vector<Docs> model(nkw);
    auto              name = [](size_t w) { return "keyword" + std::to_string(w); };
    size_t      bad   = 0;
    size_t      ops   = 4 + c.u(20);
    auto        check = [&](size_t w) {
        bool async = c.flip();
        r.server->set_async_search(async);
        auto l = r.client->search(name(w));
        Docs got(l.begin(), l.end());
        PBT_ASSERT(c, got == model[w], "keyword #%zu: the search returned %s instead of %s", w,
                   show(got).c_str(), show(model[w]).c_str());
    };
    for (size_t i = 0; i < ops; ++i) {
        size_t w = c.u(nkw - 1);
        switch (c.weighted({4, 4, 3, 3, 3})) {
        case 0: {
            uint64_t d = gen_doc(c);
            c.note("insert #%zu", w);
            r.client->insert(name(w), d);
            model[w].insert(d);
            break;
        }
        case 1: {
            // the request of an honest client, damaged on its way
            typename S::Search m = make_request<S>(r, name(w));
            bool               empty = m.add_count() == 0;
            if (empty) {
                m.set_add_count(1);
            }
            damage(c, m);
            r.server->set_async_search(c.flip());
            c.note("damaged search #%zu (%u matches)", w, m.add_count());
            std::vector<uint64_t> out;
            PBT_ASSERT(c, !r.raw_search(m, &out).ok(), "a malformed search is accepted");
            PBT_ASSERT(c, out.empty(), "a malformed search returned %zu results", out.size());
            ++bad;
            break;
        }
        case 2: {
            typename S::Update m;
            m.set_index(gen_doc(c));
            m.set_update_token(bad_size(c, std::string(16, 'u')));
            c.note("insertion with a token of %zu bytes", m.update_token().size());
            PBT_ASSERT(c, !r.raw_insert(m).ok(), "an insertion with a token of %zu bytes is accepted",
                       m.update_token().size());
            ++bad;
            break;
        }
        case 3: {
            std::vector<typename S::Update> ms;
            for (size_t j = c.u(3); j > 0; --j) {
                typename S::Update g;
                g.set_index(1);
                g.set_update_token(c.bytes(16));
                ms.push_back(g);
            }
            typename S::Update m;
            m.set_index(gen_doc(c));
            m.set_update_token(bad_size(c, std::string(16, 'u')));
            ms.insert(ms.begin() + static_cast<long>(c.u(ms.size())), m);
            c.note("bulk insertion with a token of %zu bytes", m.update_token().size());
            PBT_ASSERT(c, !r.raw_bulk(ms).ok(),
                       "a bulk insertion with a token of %zu bytes is accepted",
                       m.update_token().size());
            ++bad;
            break;
        }
        default: check(w);
        }
    }
    for (size_t w = 0; w < nkw; ++w) {
        check(w);
    }
    c.nontrivial(bad > 0);
    c.label("malformed requests", bad);
}
void malformed_body(Ctx& c)
{
    c.flip() ? malformed<SophosT>(c) : malformed<DianaT>(c);
}

} // namespace

int main(int argc, char** argv)
{
    if (!getenv("PBT_LOG")) {
        std::cerr.rdbuf(nullptr);
        std::cout.rdbuf(nullptr);
        sse::logger::set_logging_level(spdlog::level::off);
    }
    sse::logger::logger();
    std::vector<pbt::Check> checks;
    auto add = [&](const char* p, const char* n, const char* rule, void (*body)(Ctx&), uint64_t q,
                   uint64_t t, bool sched) {
        pbt::Check k;
        k.property       = p;
        k.name           = n;
        k.rule           = rule;
        k.body           = body;
        k.quick_cases    = q;
        k.thorough_cases = t;
        k.needs_dir      = true;
        k.scheduled      = sched;
        checks.push_back(k);
    };
    add("C21", "history",
        "random histories of insertions, update sessions, JSON loads (valid or not), searches, restarts, "
        "shutdowns and damaged directories; non-trivial: a search with several matches",
        history_body, 1500, 40000, true);
    add("C21", "concurrent",
        "2..5 threads inserting through one client, in or out of a session, 0..2 searching; all non-trivial",
        concurrent_body, 800, 20000, true);
    add("C24", "malformed",
        "histories mixing valid calls with requests damaged in one field; non-trivial: one malformed request",
        malformed_body, 1500, 40000, true);
    return pbt::Engine(argc, argv, checks).run();
}
