// C04: a Tethys store returns exactly the lists it was built from
// C05: Tethys searches return exactly the indexed documents
// C18: encrypted pages decrypt to their content and nothing shows through
#include "pbt.hpp"
#ifdef TETHYS_NOAIO
#define CHAOS_WRAP
#include "chaos.hpp"
#endif
#include "fakeaio.hpp"

#include <sse/schemes/tethys/core_types.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>
#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>
#include <sse/schemes/tethys/tethys_builder.hpp>
#include <sse/schemes/tethys/tethys_client.hpp>
#include <sse/schemes/tethys/tethys_server.hpp>
#include <sse/schemes/tethys/tethys_store.hpp>

#include <condition_variable>
#include <iostream>
#include <map>
#include <set>

using pbt::Ctx;
using namespace sse::tethys;
namespace crypto = sse::crypto;
using Key16      = tethys_core_key_type;

namespace {

// destroying a real AIO context takes the kernel 10 ms and more: most cases use
// the stand-in, with completions in any order
void start_kernel(Ctx& c, bool async)
{
    fakeaio::Config cfg;
    cfg.fake = !async || !c.chance(1, 20);
    if (async) {
        cfg.delay_us = static_cast<unsigned>(c.u(2) * 20);
        cfg.eagain   = c.chance(1, 4) ? 40 : 0;
        cfg.partial  = c.chance(1, 4) ? 40 : 0;
    }
    fakeaio::kernel().start(cfg, c.seed64());
}

template<class E, class F>
void expect_throw(Ctx& c, const char* what, F f)
{
    bool ok = false;
    try {
        f();
    } catch (const E&) {
        ok = true;
    }
    PBT_ASSERT(c, ok, "%s was not refused with an exception", what);
}

template<class Key>
Key make_key(uint64_t a, uint64_t b, uint64_t tail)
{
    Key k;
    k.fill(0);
    memcpy(k.data(), &a, 8);
    memcpy(k.data() + 8, &b, 8);
    for (size_t i = 16; i < k.size(); ++i, tail >>= 1) {
        k[i] = static_cast<uint8_t>(tail & 1);
    }
    return k;
}
// the buckets depend on the first 16 bytes of the key only
struct PrefixHasher
{
    template<class Key>
    details::TethysAllocatorKey operator()(const Key& key)
    {
        details::TethysAllocatorKey tk;
        memcpy(tk.h, key.data(), sizeof(tk.h));
        return tk;
    }
};

std::string slurp(const std::string& p)
{
    std::ifstream     f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

template<class T>
std::vector<T> sorted(std::vector<T> v)
{
    std::sort(v.begin(), v.end());
    return v;
}

// list lengths with a chosen profile
struct Lengths
{
    int    profile;
    size_t max;
    Lengths(Ctx& c, size_t m) : profile(static_cast<int>(c.u(5))), max(m) {}
    size_t next(Ctx& c) const
    {
        switch (profile) {
        case 0: return c.u(max);
        case 1: return c.u(std::min<size_t>(max, 6));
        case 2: return max - c.u(std::min<size_t>(max, 3));
        case 3: return c.flip() ? 0 : c.u(max);
        default:
            switch (c.u(3)) {
            case 0: return 0;
            case 1: return max;
            case 2: return c.u(max);
            default: return 1 + c.u(std::min<size_t>(max - 1, 3));
            }
        }
    }
};

template<class T>
typename std::enable_if<!std::is_integral<T>::value, T>::type make_value(Ctx& c, int profile)
{
    T v;
    v.fill(0);
    for (auto& b : v) {
        b = static_cast<uint8_t>(profile == 2 ? c.u(1) : profile == 3 ? 0 : c.u(255));
    }
    return v;
}

template<class T>
typename std::enable_if<std::is_integral<T>::value, T>::type make_value(Ctx& c, int profile)
{
    switch (profile) {
    case 0: return static_cast<T>(c.u(~0ULL));
    case 1: return static_cast<T>(c.edgy(0, std::numeric_limits<T>::max()));
    case 2: return static_cast<T>(c.u(3)); // repeated values
    default: return 0;
    }
}

struct BuildStats
{
    size_t stashed{0};
};

template<size_t PAGE, class T, class Key = Key16>
struct Plain
{
    using key     = Key;
    using inner   = encoders::EncodeSeparateEncoder<Key, T, PAGE>;
    using encoder = inner;
    using decoder = typename inner::decoder_type;
};
template<size_t PAGE, class T, class Key = Key16>
struct Enc
{
    using key     = Key;
    using inner   = encoders::EncodeSeparateEncoder<Key, T, PAGE>;
    using encoder = encoders::EncryptEncoder<inner, PAGE>;
    using decoder = encoders::DecryptDecoder<typename inner::decoder_type, PAGE>;
};

template<class Encoder>
struct MakeCodec
{
    static Encoder make(const std::array<uint8_t, 32>&) { return Encoder(); }
};
template<class B, size_t P>
struct MakeCodec<encoders::EncryptEncoder<B, P>>
{
    static encoders::EncryptEncoder<B, P> make(const std::array<uint8_t, 32>& k)
    {
        return encoders::EncryptEncoder<B, P>(k);
    }
};
template<class B, size_t P>
struct MakeCodec<encoders::DecryptDecoder<B, P>>
{
    static encoders::DecryptDecoder<B, P> make(const std::array<uint8_t, 32>& k)
    {
        return encoders::DecryptDecoder<B, P>(k);
    }
};

// ------------------------------------------------------------------------------
template<size_t PAGE, class T, class Codec>
struct StoreCase
{
    using Key     = typename Codec::key;
    using Hasher  = typename std::conditional<sizeof(Key) == 16, IdentityHasher, PrefixHasher>::type;
    using inner   = typename Codec::inner;
    using encoder = typename Codec::encoder;
    using decoder = typename Codec::decoder;
    using Builder = TethysStoreBuilder<PAGE, Key, T, Hasher, encoder, inner>;
    using Store   = TethysStore<PAGE, Key, T, Hasher, decoder>;
    using Idec    = typename inner::decoder_type;
    static constexpr bool kPlain = std::is_same<inner, encoder>::value;

    Ctx&                             c;
    std::map<Key, std::vector<T>>  model;
    std::array<uint8_t, 32>          enckey;
    size_t                           graph;

    bool                             many_buckets;

    explicit StoreCase(Ctx& ctx, bool many = false) : c(ctx), many_buckets(many) {}

    // the keys of some cases only differ by their tail
    Key mk(uint64_t a, uint64_t b)
    {
        return make_key<Key>(a, b, sizeof(Key) > 16 ? c.u(255) : 0);
    }
    Key gen_key(int keyprofile)
    {
        switch (keyprofile) {
        case 0: return mk(c.u(~0ULL), c.u(~0ULL));
        case 1: // few buckets are hit
            return mk(c.u(2) + c.u(1000) * (graph / 2), c.u(2) + c.u(1000) * (graph - graph / 2));
        case 2: // one bucket on one side
            return mk((graph / 2) * c.u(100000), c.u(~0ULL));
        case 3: return mk(c.edgy(0, ~0ULL), c.edgy(0, ~0ULL));
        default: // all in one pair
            return mk((graph / 2) * c.u(100000), (graph - graph / 2) * c.u(100000));
        }
    }

    std::unique_ptr<Store> open(const std::string& tp, const std::string& sp, std::true_type)
    {
        if (c.flip()) {
            return std::unique_ptr<Store>(new Store(tp, sp));
        }
        Idec d;
        return std::unique_ptr<Store>(new Store(tp, sp, d));
    }
    std::unique_ptr<Store> open(const std::string& tp, const std::string& sp, std::false_type)
    {
        auto d = MakeCodec<decoder>::make(enckey);
        return std::unique_ptr<Store>(new Store(tp, sp, d));
    }
    std::vector<T> get(Store& s, const Key& k, decoder& d, std::true_type)
    {
        if (c.flip()) {
            return s.get_list(k);
        }
        return s.get_list(k, d);
    }
    std::vector<T> get(Store& s, const Key& k, decoder& d, std::false_type)
    {
        return s.get_list(k, d);
    }
    std::vector<T> decode(const Key& k, decoder& d, const BucketPair<PAGE>& b)
    {
        return Store::decode_list(k, d, b.payload_0, b.index_0, b.payload_1, b.index_1);
    }
    void async(Store& s, const Key& k, decoder& d, typename Store::get_list_callback_type cb, std::true_type)
    {
        if (c.flip()) {
            s.async_get_list(k, cb);
        } else {
            s.async_get_list(k, d, cb);
        }
    }
    void async(Store& s, const Key& k, decoder& d, typename Store::get_list_callback_type cb, std::false_type)
    {
        s.async_get_list(k, d, cb);
    }
    const std::vector<T>& expected(const Key& k)
    {
        static const std::vector<T> none;
        auto                        it = model.find(k);
        return it == model.end() ? none : it->second;
    }
    void compare(const char* how, const Key& k, const std::vector<T>& got)
    {
        const auto& want = expected(k);
        if (sorted(got) == sorted(want)) {
            return;
        }
        uint64_t a, b;
        memcpy(&a, k.data(), 8);
        memcpy(&b, k.data() + 8, 8);
        c.fail("%s of the %s key (%" PRIx64 ",%" PRIx64 ", buckets %zu and %zu of %zu) gives %zu values instead of %zu%s",
               how,
               model.count(k) ? "stored" : "absent",
               a,
               b,
               static_cast<size_t>(a % (graph / 2)),
               static_cast<size_t>(graph / 2 + b % (graph - graph / 2)),
               graph,
               got.size(),
               want.size(),
               got.size() == want.size() ? " (other values)" : "");
    }

    void run()
    {
        start_kernel(c, PAGE % 4096 == 0);
        using yes = std::integral_constant<bool, kPlain>;
        TethysStoreBuilderParam p;
        p.tethys_table_path = c.dir() + "/table";
        p.tethys_stash_path = c.dir() + "/stash";
        p.max_n_elements    = PAGE >= 4096 ? 1 + c.u(20000) : 1 + c.u(1500);
        if (c.chance(1, 4)) {
            p.max_n_elements = 1 + c.u(2 * Builder::kBucketSize);
        }
        p.epsilon = c.u(10) * 0.1;
        if (many_buckets) {
            p.max_n_elements = static_cast<size_t>((PAGE == 4096 ? c.in(80000, 100000) : c.in(17000, 80000)) * Builder::kBucketSize / (2. + p.epsilon));
        } else if (PAGE > 65536) {
            p.max_n_elements = 1 + c.u(5 * Builder::kBucketSize);
        }
        graph     = p.graph_size(Builder::kBucketSize);
        for (auto& b : enckey) {
            b = static_cast<uint8_t>(c.u(255));
        }
        crypto::shim::random_state() = c.seed64();

        // load: fraction of the cells that the lists (with control values) take
        double  load       = std::vector<double>{0.2, 0.6, 0.9, 1.0, 1.0, 1.1, 1.5, 3.0}[c.u(std::vector<double>{0.2, 0.6, 0.9, 1.0, 1.0, 1.1, 1.5, 3.0}.size() - 1)];
        size_t  cells      = static_cast<size_t>(load * graph * Builder::kBucketSize) + 1;
        int     keyprofile = static_cast<int>(c.weighted({6, 2, 2, 1, 1}));
        int     valprofile = static_cast<int>(c.weighted({6, 2, 1, 1}));
        Lengths len(c, Builder::kMaxListSize);

        Builder builder(p);
        size_t  used = 0, n_empty = 0, too_long = 0;
        while (used < cells && model.size() < 2000) {
            Key k = gen_key(keyprofile);
            if (model.count(k)) {
                used += 1;
                continue;
            }
            if (c.chance(1, 40)) {
                std::vector<T> big(c.chance(1, 4) ? std::max<size_t>(65536, Builder::kMaxListSize + 1) + c.u(9)
                                                   : Builder::kMaxListSize + 1 + c.u(20));
                expect_throw<std::invalid_argument>(c, "inserting a list longer than the maximum", [&] {
                    builder.insert_list(k, big);
                });
                ++too_long;
                continue;
            }
            std::vector<T> v(len.next(c));
            for (auto& x : v) {
                x = make_value<T>(c, valprofile);
            }
            builder.insert_list(k, v);
            n_empty += v.empty();
            used += v.size() + inner::kListControlValues;
            model[k] = std::move(v);
        }
        auto enc = MakeCodec<encoder>::make(enckey);
        inner senc;
        builder.build(enc, senc);
        if (c.chance(1, 3)) {
            expect_throw<std::runtime_error>(c, "inserting after the build", [&] {
                builder.insert_list(mk(1, 2), std::vector<T>(1));
            });
            expect_throw<std::runtime_error>(c, "building twice", [&] { builder.build(enc, senc); });
        }

        std::string stash = slurp(p.tethys_stash_path);
        size_t      n_reopen = 1 + c.u(1);
        size_t      n_async  = 0;
        for (size_t r = 0; r < n_reopen; ++r) {
            auto s = open(p.tethys_table_path, p.tethys_stash_path, yes());
            auto d = MakeCodec<decoder>::make(enckey);
            if (PAGE % 4096 == 0 && c.flip()) {
                s->use_direct_IO(true);
            }
            // absent keys: fresh ones and neighbours of stored ones
            std::vector<Key> absent;
            for (int i = 0; i < 10; ++i) {
                absent.push_back(gen_key(keyprofile));
                if (!model.empty()) {
                    auto it = model.begin();
                    std::advance(it, c.u(model.size() - 1));
                    uint64_t a, b;
                    memcpy(&a, it->first.data(), 8);
                    memcpy(&b, it->first.data() + 8, 8);
                    absent.push_back(mk(a + graph / 2, b));
                    absent.push_back(mk(a, b + (graph - graph / 2)));
                }
            }
            std::vector<Key> keys;
            for (const auto& kv : model) {
                keys.push_back(kv.first);
            }
            keys.insert(keys.end(), absent.begin(), absent.end());
            for (const auto& k : keys) {
                compare("get_list", k, get(*s, k, d, yes()));
            }
            for (int i = 0; i < 5; ++i) {
                const Key& k    = c.pick(keys);
                auto         bp   = s->get_buckets(k);
                auto         got  = decode(k, d, bp);
                const auto&  want = expected(k);
                // what the buckets hold is part of the list
                std::vector<T> a = sorted(got), b = sorted(want);
                PBT_ASSERT(c,
                           std::includes(b.begin(), b.end(), a.begin(), a.end()),
                           "get_buckets+decode_list gives values that are not in the list");
                if (stash.empty()) {
                    compare("get_buckets+decode_list", k, got);
                }
            }
            if (PAGE % 4096 == 0) {
                n_async += async_lookups(*s, d, keys, yes());
            }
        }
        c.note("page %zu, %zu-byte keys, %zu-byte values, %s, graph %zu, load %.1f, %zu lists (%zu empty), key profile %d, stash %zu bytes",
               PAGE,
               sizeof(Key),
               sizeof(T),
               kPlain ? "plain" : "encrypted",
               graph,
               load,
               model.size(),
               n_empty,
               keyprofile,
               stash.size());
        c.label(stash.empty() ? "no stash" : "stash");
        c.label(n_empty ? "empty lists" : "no empty list");
        c.label(n_async ? "async" : "sync");
        c.label(too_long ? "too long" : "-");
        c.nontrivial(model.size() >= 4);
    }

    size_t async_lookups(Store& s, decoder& d, const std::vector<Key>& keys, std::integral_constant<bool, kPlain> y)
    {
        struct Res
        {
            Key            k;
            std::vector<T>   got;
            std::atomic<int> calls{0};
        };
        std::vector<std::unique_ptr<Res>> res;
        std::mutex                        m;
        std::condition_variable           cv;
        size_t                            done = 0, n = std::min<size_t>(keys.size(), 1 + c.u(40));
        for (size_t i = 0; i < n; ++i) {
            res.emplace_back(new Res);
            Res* r = res.back().get();
            r->k   = c.pick(keys);
        }
        for (auto& rp : res) {
            Res* r = rp.get();
            async(s, r->k, d, [r, &m, &cv, &done](std::vector<T> v) {
                std::lock_guard<std::mutex> l(m);
                if (r->calls++ == 0) {
                    r->got = std::move(v);
                }
                ++done;
                cv.notify_all();
            }, y);
        }
        {
            std::unique_lock<std::mutex> l(m);
            PBT_ASSERT(c,
                       cv.wait_for(l, std::chrono::seconds(20), [&] { return done >= n; }),
                       "%zu of %zu asynchronous lookups called back",
                       done,
                       n);
        }
        for (auto& r : res) {
            PBT_ASSERT(c, r->calls == 1, "an asynchronous lookup called back %d times", r->calls.load());
            compare("async_get_list", r->k, r->got);
        }
        // raw buckets
        const Key&                                         k    = c.pick(keys);
        auto                                                 want = s.get_buckets(k);
        std::map<size_t, std::unique_ptr<typename Store::payload_type>> got;
        size_t                                               calls = 0;
        s.async_get_buckets(k, [&](std::unique_ptr<typename Store::payload_type> b, size_t idx) {
            std::lock_guard<std::mutex> l(m);
            got[idx] = std::move(b);
            ++calls;
            cv.notify_all();
        });
        {
            std::unique_lock<std::mutex> l(m);
            PBT_ASSERT(c,
                       cv.wait_for(l, std::chrono::seconds(20), [&] { return calls >= 2; }),
                       "async_get_buckets called back %zu times",
                       calls);
        }
        PBT_ASSERT(c,
                   got.size() == 2 && got.count(want.index_0) && got.count(want.index_1)
                       && got[want.index_0] && *got[want.index_0] == want.payload_0
                       && got[want.index_1] && *got[want.index_1] == want.payload_1,
                   "async_get_buckets and get_buckets disagree");
        return n;
    }
};

template<size_t PAGE, class T, class Key = Key16>
void store_case(Ctx& c, bool enc)
{
    if (enc) {
        StoreCase<PAGE, T, Enc<PAGE, T, Key>>(c).run();
    } else {
        StoreCase<PAGE, T, Plain<PAGE, T, Key>>(c).run();
    }
}
template<size_t N>
using Bytes = std::array<uint8_t, N>;

// more than 2^16 buckets, or more than 2^16 values in a bucket
void large_store_body(Ctx& c)
{
    switch (c.weighted({8, 8, 8, 8, 8, 1})) {
    case 5: StoreCase<4096, uint64_t, Enc<4096, uint64_t>>(c, true).run(); break;
    case 0: StoreCase<128, uint64_t, Enc<128, uint64_t>>(c, true).run(); break;
    case 1: StoreCase<128, uint32_t, Plain<128, uint32_t>>(c, true).run(); break;
    case 2: StoreCase<131072, Bytes<1>, Enc<131072, Bytes<1>>>(c).run(); break;
    case 3: StoreCase<262144, uint16_t, Plain<262144, uint16_t>>(c).run(); break;
    default: StoreCase<524288, uint32_t, Enc<524288, uint32_t>>(c).run(); break;
    }
}

void store_body(Ctx& c)
{
    bool enc = c.flip();
#ifdef TETHYS_NOAIO
    // the asynchronous reads are made by the threads of a pool, and end at the same time
    chaos::start(c.seed64(), static_cast<int>(c.u(2)));
    if (c.flip()) {
        store_case<4096, uint64_t>(c, enc);
    } else {
        store_case<8192, uint64_t>(c, enc);
    }
    chaos::stop();
    return;
#endif
    switch (c.weighted({6, 5, 3, 5, 3, 2, 2, 1, 1, 1, 1, 1, 1})) {
    case 0: store_case<128, uint64_t>(c, enc); break;
    case 1: store_case<256, uint64_t>(c, enc); break;
    case 2: store_case<512, uint64_t>(c, enc); break;
    case 3: store_case<4096, uint64_t>(c, enc); break;
    case 4: store_case<256, uint32_t>(c, enc); break;
    case 5: store_case<512, uint16_t>(c, enc); break;
    case 6: store_case<512, uint64_t, Bytes<24>>(c, enc); break;
    case 7: store_case<256, uint64_t, Bytes<17>>(c, enc); break;
    case 8: store_case<512, Bytes<12>>(c, enc); break;
    case 9: store_case<512, Bytes<16>>(c, enc); break;
    case 10: store_case<4096, Bytes<24>, Bytes<20>>(c, enc); break;
    case 11: store_case<256, Bytes<3>, Bytes<19>>(c, enc); break;
    default: store_case<4096, uint32_t>(c, enc); break;
    }
}

// ------------------------------------------------------------------------------
template<size_t PAGE>
struct SearchCase
{
    using inner   = encoders::EncodeSeparateEncoder<Key16, index_type, PAGE>;
    using Builder = TethysBuilder<PAGE, inner>;
    using Server  = TethysServer<tethys_server_store_type<PAGE>>;
    using Client  = TethysClient<typename inner::decoder_type>;
    static constexpr size_t kMax = Builder::tethys_store_type::kMaxListSize;

    // long_blocks: a keyword of about so many blocks
    static void run(Ctx& c, size_t long_blocks = 0)
    {
        start_kernel(c, false);
        crypto::shim::random_state() = c.seed64();
        std::map<std::string, std::vector<uint64_t>> model;
        size_t n_kw     = 1 + c.u(long_blocks ? 3 : 12);
        bool   use_json = c.chance(1, 3);
        size_t n_entries = 0, n_blocks = 0, n_mult = 0;
        std::map<std::string, std::vector<uint64_t>> json;
        for (size_t i = 0; i < n_kw; ++i) {
            bool        in_json = use_json && c.flip();
            std::string kw      = in_json ? "kw" + std::to_string(c.u(1000))
                                          : c.flip() ? c.bytes(1 + c.u(12)) : "k" + std::to_string(c.u(30));
            if (model.count(kw)) {
                continue;
            }
            size_t n;
            switch (c.u(4)) {
            case 0: n = c.u(5); break;
            case 1: n = kMax * c.u(PAGE >= 4096 ? 2 : 5); break;
            case 2: n = kMax * (1 + c.u(3)) + 2 - c.u(4); break;
            default: n = c.u(kMax * (PAGE >= 4096 ? 2 : 6)); break;
            }
            if (long_blocks && i == 0) {
                n = kMax * long_blocks + c.u(2 * kMax);
            }
            std::vector<uint64_t> docs(n);
            if (n > 1000) {
                uint64_t sd = c.seed64();
                for (auto& d : docs) {
                    d = pbt::splitmix(sd);
                    if (in_json) {
                        d = static_cast<uint32_t>(d);
                    }
                }
            }
            int                   prof = static_cast<int>(c.weighted({5, 1, 1}));
            for (auto& d : docs) {
                if (n > 1000) {
                    break;
                }
                d = make_value<uint64_t>(c, prof);
                if (in_json) {
                    d = static_cast<uint32_t>(d);
                }
            }
            n_entries += n;
            n_blocks += n / kMax + 1;
            n_mult += n != 0 && n % kMax == 0;
            if (in_json) {
                json[kw] = docs;
            }
            model[kw] = std::move(docs);
        }
        double load = std::vector<double>{0.3, 0.8, 1.0, 1.0, 1.3, 2.0, 4.0}[c.u(6)];
        TethysStoreBuilderParam p;
        p.tethys_table_path = c.dir() + "/table.bin";
        p.tethys_stash_path = c.dir() + "/stash.bin";
        p.max_n_elements    = static_cast<size_t>((n_entries + n_blocks * inner::kListControlValues) / load) + 1;
        p.epsilon           = c.u(5) * 0.1;
        std::array<uint8_t, 32> prf_key, enc_key;
        for (auto& b : prf_key) {
            b = static_cast<uint8_t>(c.u(255));
        }
        for (auto& b : enc_key) {
            b = static_cast<uint8_t>(c.u(255));
        }
        {
            auto    k = prf_key;
            Builder b(p, c.dir() + "/counters", crypto::Key<32>(k.data()), enc_key);
            for (const auto& kv : model) {
                if (!json.count(kv.first)) {
                    b.insert_list(kv.first, std::list<uint64_t>(kv.second.begin(), kv.second.end()));
                }
            }
            if (!json.empty()) {
                std::string   jp = c.dir() + "/index.json";
                std::ofstream f(jp);
                f << "{";
                bool first = true;
                for (const auto& kv : json) {
                    f << (first ? "" : ",") << "\"" << kv.first << "\":[";
                    first = false;
                    for (size_t i = 0; i < kv.second.size(); ++i) {
                        f << (i ? "," : "") << kv.second[i];
                    }
                    f << "]";
                }
                f << "}";
                f.close();
                PBT_ASSERT(c, b.load_inverted_index(jp), "loading a well-formed inverted index failed");
            }
            if (c.chance(1, 4)) {
                PBT_ASSERT(c,
                           !b.load_inverted_index(c.dir() + "/nothing_here.json"),
                           "loading a missing inverted index is reported as a success");
            }
            b.build();
        }
        bool stash = !slurp(p.tethys_stash_path).empty();
        for (int r = 0; r < 2; ++r) {
            Server server(p.tethys_table_path);
            auto   k = prf_key;
            std::unique_ptr<Client> client;
            if (c.flip()) {
                client.reset(new Client(c.dir() + "/counters", p.tethys_stash_path, crypto::Key<32>(k.data()), enc_key));
            } else {
                typename inner::decoder_type sd;
                client.reset(new Client(c.dir() + "/counters", p.tethys_stash_path, sd, crypto::Key<32>(k.data()), enc_key));
            }
            auto search = [&](const std::string& kw) {
                auto sr  = client->search_request(kw, c.flip());
                auto blk = server.search(sr);
                return client->decode_search_results(sr, blk);
            };
            for (const auto& kv : model) {
                auto got = search(kv.first);
                PBT_ASSERT(c,
                           sorted(got) == sorted(kv.second),
                           "searching a keyword with %zu documents (%zu per block, page %zu) gives %zu documents%s",
                           kv.second.size(),
                           kMax,
                           PAGE,
                           got.size(),
                           got.size() == kv.second.size() ? " (other ones)" : "");
            }
            for (int i = 0; i < 3; ++i) {
                std::string kw = c.flip() ? c.bytes(1 + c.u(12)) : "k" + std::to_string(c.u(40));
                if (!model.count(kw)) {
                    auto got = search(kw);
                    PBT_ASSERT(c, got.empty(), "searching an unknown keyword gives %zu documents", got.size());
                }
            }
        }
        c.note("page %zu, %zu keywords (%zu from JSON), %zu entries, %zu blocks, load %.1f",
               PAGE, model.size(), json.size(), n_entries, n_blocks, load);
        c.label(stash ? "stash" : "no stash");
        c.label(json.empty() ? "no json" : "json");
        c.label(n_mult ? "multiple of the block size" : "-");
        c.nontrivial(n_entries >= 1 && model.size() >= 2);
    }
};

void search_body(Ctx& c)
{
    switch (c.weighted({3, 3, 2, 2})) {
    case 0: SearchCase<128>::run(c); break;
    case 1: SearchCase<256>::run(c); break;
    case 2: SearchCase<512>::run(c); break;
    default: SearchCase<4096>::run(c); break;
    }
}

// the number of blocks of a keyword is not bounded by a byte or two
void long_body(Ctx& c)
{
    size_t blocks = c.chance(1, 16) ? 65534 + c.u(5) : c.flip() ? 255 + c.u(10) : c.edgy(200, 1500);
    if (c.flip() || blocks > 2000) {
        SearchCase<128>::run(c, blocks);
    } else {
        SearchCase<256>::run(c, blocks);
    }
}

// ------------------------------------------------------------------------------
template<size_t PAGE>
struct CaptureDecoder
{
    static constexpr size_t kListControlValues = 6;
    using key_type                             = Key16;
    using value_type                           = uint64_t;
    using page                                 = std::array<uint8_t, PAGE>;
    static page  p0, p1;
    static size_t i0, i1;

    std::vector<uint64_t> decode_buckets(const Key16&, const page& a, size_t ia, const page& b, size_t ib)
    {
        p0 = a;
        p1 = b;
        i0 = ia;
        i1 = ib;
        return {};
    }
};
template<size_t PAGE>
typename CaptureDecoder<PAGE>::page CaptureDecoder<PAGE>::p0;
template<size_t PAGE>
typename CaptureDecoder<PAGE>::page CaptureDecoder<PAGE>::p1;
template<size_t PAGE>
size_t CaptureDecoder<PAGE>::i0;
template<size_t PAGE>
size_t CaptureDecoder<PAGE>::i1;

template<class A>
size_t differing_bits(const A& a, const A& b)
{
    size_t n = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        n += static_cast<size_t>(__builtin_popcount(static_cast<unsigned>(a[i] ^ b[i])));
    }
    return n;
}

template<size_t PAGE>
void crypt_page(Ctx& c)
{
    using inner = encoders::EncodeSeparateEncoder<Key16, uint64_t, PAGE>;
    using Enc   = encoders::EncryptEncoder<inner, PAGE>;
    using Dec   = encoders::DecryptDecoder<CaptureDecoder<PAGE>, PAGE>;
    using page  = std::array<uint8_t, PAGE>;

    std::array<uint8_t, 32> key;
    for (auto& b : key) {
        b = static_cast<uint8_t>(c.u(255));
    }
    Enc enc(key);
    Dec dec(key);
    struct Item
    {
        size_t idx;
        page   plain, cipher;
    };
    std::vector<Item> items;
    size_t            n = 2 + c.u(6);
    int               content = static_cast<int>(c.u(2));
    bool              full_seen = false, part_seen = false;
    for (size_t i = 0; i < n; ++i) {
        Item it;
        do {
            it.idx = c.weighted({3, 2, 1}) == 0 ? c.u(20) : c.flip() ? (1ULL << c.u(63)) - c.u(1) : c.edgy(0, ~0ULL);
        } while (std::any_of(items.begin(), items.end(), [&](const Item& x) { return x.idx == it.idx; }));
        size_t written = c.weighted({1, 1, 3}) == 0 ? 0 : c.flip() ? PAGE : c.u(PAGE);
        full_seen |= written == PAGE;
        part_seen |= written < PAGE;
        if (content == 2 && i > 0) {
            it.plain = items[0].plain;
            written  = PAGE;
        } else {
            for (auto& b : it.plain) {
                b = content == 0 ? static_cast<uint8_t>(c.u(255)) : 0;
            }
        }
        page buf = it.plain;
        enc.start_block_encoding(buf.data(), it.idx);
        size_t more = enc.finish_block_encoding(buf.data(), it.idx, written, PAGE - written);
        PBT_ASSERT(c, written + more == PAGE, "%zu bytes written then %zu more in a page of %zu", written, more, PAGE);
        std::fill(it.plain.begin() + written, it.plain.end(), 0); // the filler
        it.cipher = buf;
        items.push_back(it);
    }
    for (size_t i = 0; i + 1 < items.size(); ++i) {
        const Item& a = items[i];
        const Item& b = items[i + 1];
        dec.decode_buckets(Key16(), a.cipher, a.idx, b.cipher, b.idx);
        using Cap = CaptureDecoder<PAGE>;
        PBT_ASSERT(c, Cap::p0 == a.plain && Cap::i0 == a.idx, "decrypting page %zu does not give its content back", a.idx);
        PBT_ASSERT(c, Cap::p1 == b.plain && Cap::i1 == b.idx, "decrypting page %zu does not give its content back", b.idx);
    }
    // the pad of a page looks random, and shares nothing with the others
    auto pad = [](const Item& x) {
        page r;
        for (size_t i = 0; i < PAGE; ++i) {
            r[i] = x.plain[i] ^ x.cipher[i];
        }
        return r;
    };
    std::map<std::array<uint8_t, 16>, size_t> chunks;
    for (const auto& x : items) {
        page   p    = pad(x);
        size_t ones = differing_bits(x.plain, x.cipher);
        PBT_ASSERT(c,
                   ones > PAGE * 8 * 3 / 10 && ones < PAGE * 8 * 7 / 10,
                   "page %zu: %zu of %zu bits are masked",
                   x.idx,
                   ones,
                   PAGE * 8);
        for (size_t o = 0; o + 16 <= PAGE; o += 16) {
            std::array<uint8_t, 16> ch;
            std::copy(p.begin() + o, p.begin() + o + 16, ch.begin());
            auto r = chunks.emplace(ch, x.idx);
            PBT_ASSERT(c,
                       r.second,
                       "pages %zu and %zu are masked with the same bytes",
                       r.first->second,
                       x.idx);
        }
        // no plaintext word is readable in place
        for (size_t o = 0; o + 8 <= PAGE; o += 8) {
            PBT_ASSERT(c,
                       memcmp(x.plain.data() + o, x.cipher.data() + o, 8) != 0,
                       "page %zu: the word at offset %zu is in clear",
                       x.idx,
                       o);
        }
    }
    // another key
    auto key2 = key;
    key2[c.u(31)] ^= static_cast<uint8_t>(1U << c.u(7));
    Enc  enc2(key2);
    page buf = items[0].plain;
    enc2.finish_block_encoding(buf.data(), items[0].idx, PAGE, 0);
    size_t diff = differing_bits(buf, items[0].cipher);
    PBT_ASSERT(c, diff > PAGE * 8 * 3 / 10, "two keys: only %zu of %zu bits differ", diff, PAGE * 8);
    // same page, key and index: same result
    Enc enc3(key);
    buf = items[0].plain;
    enc3.finish_block_encoding(buf.data(), items[0].idx, PAGE, 0);
    PBT_ASSERT(c, buf == items[0].cipher, "encrypting the same page twice gives two results");
    c.label(content == 0 ? "random" : content == 1 ? "zero" : "equal pages");
    c.label(full_seen ? "full page" : "-");
    c.label(part_seen ? "partial page" : "-");
    c.note("page size %zu, %zu pages, content %d", PAGE, n, content);
    c.nontrivial(true);
}

void crypt_body(Ctx& c)
{
    switch (c.u(3)) {
    case 0: crypt_page<128>(c); break;
    case 1: crypt_page<256>(c); break;
    case 2: crypt_page<512>(c); break;
    default: crypt_page<4096>(c); break;
    }
}

// a whole table: the encrypted one is the plain one, masked page by page
template<size_t PAGE>
void table_page(Ctx& c)
{
    start_kernel(c, false);
    using inner = encoders::EncodeSeparateEncoder<Key16, uint64_t, PAGE>;
    using Enc   = encoders::EncryptEncoder<inner, PAGE>;
    using Dec   = encoders::DecryptDecoder<CaptureDecoder<PAGE>, PAGE>;
    using page  = std::array<uint8_t, PAGE>;
    using PB    = TethysStoreBuilder<PAGE, Key16, uint64_t, IdentityHasher, inner, inner>;
    using EB    = TethysStoreBuilder<PAGE, Key16, uint64_t, IdentityHasher, Enc, inner>;

    std::array<uint8_t, 32> key;
    for (auto& b : key) {
        b = static_cast<uint8_t>(c.u(255));
    }
    TethysStoreBuilderParam p, q;
    p.max_n_elements    = 1 + c.u(PAGE >= 4096 ? 8000 : 600);
    p.epsilon           = 0.1 * c.u(5);
    q                   = p;
    p.tethys_table_path = c.dir() + "/plain";
    p.tethys_stash_path = c.dir() + "/plain.stash";
    q.tethys_table_path = c.dir() + "/enc";
    q.tethys_stash_path = c.dir() + "/enc.stash";
    size_t graph        = p.graph_size(PB::kBucketSize);
    PB      pb(p);
    EB      eb(q);
    Lengths len(c, PB::kMaxListSize);
    size_t  used = 0, cells = c.in(1, graph * PB::kBucketSize * 5 / 4);
    size_t  lists = 0;
    while (used < cells) {
        Key16                 k = make_key<Key16>(c.u(~0ULL), c.u(~0ULL), 0);
        std::vector<uint64_t> v(len.next(c));
        for (auto& x : v) {
            x = c.u(~0ULL);
        }
        pb.insert_list(k, v);
        eb.insert_list(k, v);
        used += v.size() + 6;
        ++lists;
    }
    Enc   e(key);
    inner s1, s2, s3;
    pb.build(s1, s2);
    eb.build(e, s3);
    std::string a = slurp(p.tethys_table_path), b = slurp(q.tethys_table_path);
    PBT_ASSERT(c, a.size() == b.size() && a.size() >= graph * PAGE, "the tables have %zu and %zu bytes for %zu pages", a.size(), b.size(), graph);
    PBT_ASSERT(c, slurp(p.tethys_stash_path) == slurp(q.tethys_stash_path), "the stashes differ");
    Dec dec(key);
    std::set<std::array<uint8_t, 16>> chunks;
    // every page follows the others, possibly after a header
    using V = sse::abstractio::awonvm_vector<page, PAGE>;
    V pv(p.tethys_table_path, false), ev(q.tethys_table_path, false);
    PBT_ASSERT(c, pv.size() == graph && ev.size() == graph, "the tables hold %zu and %zu pages instead of %zu", pv.size(), ev.size(), graph);
    for (size_t i = 0; i < graph; ++i) {
        page x = pv.get(i), y = ev.get(i);
        dec.decode_buckets(Key16(), y, i, y, i);
        PBT_ASSERT(c, CaptureDecoder<PAGE>::p0 == x, "page %zu of the table does not decrypt to its content", i);
        for (size_t o = 0; o + 16 <= PAGE; o += 16) {
            std::array<uint8_t, 16> ch;
            for (size_t j = 0; j < 16; ++j) {
                ch[j] = x[o + j] ^ y[o + j];
            }
            PBT_ASSERT(c, chunks.insert(ch).second, "page %zu of the table reuses a mask at offset %zu", i, o);
        }
    }
    c.note("page size %zu, %zu pages, %zu lists", PAGE, graph, lists);
    c.nontrivial(graph >= 2 && lists >= 2);
}

void table_body(Ctx& c)
{
    switch (c.u(3)) {
    case 0: table_page<128>(c); break;
    case 1: table_page<256>(c); break;
    case 2: table_page<512>(c); break;
    default: table_page<4096>(c); break;
    }
}

} // namespace

#if defined(__SANITIZE_ADDRESS__)
#define SUFFIX "_asan"
#define DIV 8
#else
#define SUFFIX ""
#define DIV 1
#endif

int main(int argc, char** argv)
{
    std::cerr.rdbuf(nullptr);
    std::cout.rdbuf(nullptr);
    sse::logger::set_logging_level(spdlog::level::off);
    std::vector<pbt::Check> checks(4);
    checks[0].property       = "C04";
    checks[0].name           = "store" SUFFIX;
    checks[0].rule           = "random key/list sets (random, colliding and one-sided keys; empty to maximal lists) in "
                     "tables of random size loaded from 20% to 300%, plain and encrypted, thirteen page/key/value "
                     "geometries, read back through every lookup after reopening; non-trivial: >=4 lists";
    checks[0].body           = store_body;
    checks[0].quick_cases    = 6000 / DIV;
    checks[0].thorough_cases = 400000 / DIV;
    checks[0].needs_dir      = true;
    checks[1].property       = "C05";
    checks[1].name           = "search" SUFFIX;
    checks[1].rule           = "random inverted indexes (list lengths around block boundaries, from calls and JSON "
                     "files) searched twice after reopening client and server; non-trivial: >=2 keywords";
    checks[1].body           = search_body;
    checks[1].quick_cases    = 3000 / DIV;
    checks[1].thorough_cases = 100000 / DIV;
    checks[1].needs_dir      = true;
    pbt::Check big;
    big.property       = "C04";
    big.name           = "large_store" SUFFIX;
    big.rule           = "tables of 17000 to 80000 buckets, or buckets of 65536 to 131000 values; non-trivial: >=4 lists";
    big.body           = large_store_body;
    big.quick_cases    = 160 / DIV;
    big.thorough_cases = 8000 / DIV;
    big.needs_dir      = true;
    big.case_timeout_s = 120;
    pbt::Check lc;
    lc.property        = "C05";
    lc.name            = "long_lists" SUFFIX;
    lc.rule            = "keywords of 200 to 65539 blocks among short ones; all non-trivial";
    lc.body            = long_body;
    lc.quick_cases     = 48;
    lc.thorough_cases  = 4000;
    lc.needs_dir       = true;
    lc.case_timeout_s  = 120;
    checks[2].property       = "C18";
    checks[2].name           = "page" SUFFIX;
    checks[2].rule           = "2..8 pages of random, zero or equal content at distinct indices, wholly or partly "
                     "written; every case is non-trivial";
    checks[2].body           = crypt_body;
    checks[2].quick_cases    = 30000 / DIV;
    checks[2].thorough_cases = 2000000 / DIV;
    checks[3].property       = "C18";
    checks[3].name           = "table" SUFFIX;
    checks[3].rule           = "the same database built plain and encrypted, compared page by page; non-trivial: >=2 "
                     "pages and >=2 lists";
    checks[3].body           = table_body;
    checks[3].quick_cases    = 4000 / DIV;
    checks[3].thorough_cases = 100000 / DIV;
    checks[3].needs_dir      = true;
#ifdef TETHYS_NOAIO
    checks.resize(1);
    checks[0].name            = "store_without_libaio";
    checks[0].quick_cases     = 600;
    checks[0].thorough_cases  = 60000;
    checks[0].scheduled       = true;
#endif
#ifndef TETHYS_NOAIO
    checks.push_back(lc);
    checks.push_back(big);
#endif
    return pbt::Engine(argc, argv, checks).run();
}
