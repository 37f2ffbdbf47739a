// Puncturable encryption stand-in with the functional contract of the real one:
// a ciphertext (index, tag) opens under the punctured key exactly when its tag was
// not punctured and *all* the incremental shares 1..d plus the initial share for d
// are present (the shares are an additive sharing of the master secret, so a
// missing, repeated or mis-numbered share yields garbage, as in the real scheme).
#pragma once
#include <sse/crypto/key.hpp>
#include <sse/crypto/prf.hpp>
namespace sse {
namespace crypto {
namespace punct {
constexpr size_t kMasterKeySize  = 32;
constexpr size_t kTagSize        = 16;
constexpr size_t kSecretSize     = 16;
constexpr size_t kCiphertextSize = kTagSize + 16;
constexpr size_t kKeyShareSize   = kTagSize + kSecretSize;

using master_key_type    = std::array<uint8_t, kMasterKeySize>;
using tag_type           = std::array<uint8_t, kTagSize>;
using ciphertext_type    = std::array<uint8_t, kCiphertextSize>;
using key_share_type     = std::array<uint8_t, kKeyShareSize>;
using punctured_key_type = std::vector<key_share_type>;

template<size_t N>
inline tag_type extract_tag(const std::array<uint8_t, N>& x)
{
    tag_type t;
    memcpy(t.data(), x.data(), kTagSize);
    return t;
}
using secret = std::array<uint8_t, kSecretSize>;
inline secret add(const secret& a, const secret& b, bool sub = false)
{
    uint64_t x[2], y[2];
    memcpy(x, a.data(), 16);
    memcpy(y, b.data(), 16);
    for (int i = 0; i < 2; i++) {
        x[i] = sub ? x[i] - y[i] : x[i] + y[i];
    }
    secret r;
    memcpy(r.data(), x, 16);
    return r;
}
inline void pad(const secret& s, const tag_type& tag, uint8_t out[16])
{
    shim::kdf(0x70, s.data(), s.size(), tag.data(), tag.size(), out, 16);
}
} // namespace punct

class PuncturableEncryption
{
public:
    explicit PuncturableEncryption(Key<punct::kMasterKeySize>&& k) : key_(std::move(k)) {}

    punct::ciphertext_type encrypt(const uint64_t m, const punct::tag_type& tag) const
    {
        punct::ciphertext_type c{};
        uint8_t                p[16];
        punct::pad(share("alpha", 0), tag, p);
        memcpy(c.data(), tag.data(), punct::kTagSize);
        uint64_t body[2] = {m, ~m};
        for (int i = 0; i < 16; i++) {
            c[punct::kTagSize + i] = p[i] ^ reinterpret_cast<uint8_t*>(body)[i];
        }
        return c;
    }
    punct::key_share_type initial_keyshare(size_t d) const
    {
        return make(punct::tag_type{}, punct::add(share("alpha", 0), lambda(d), true));
    }
    punct::key_share_type inc_puncture(size_t d, const punct::tag_type& tag) const
    {
        if (d == 0) {
            throw std::invalid_argument("inc_puncture: d must be at least 1");
        }
        return make(tag, punct::add(lambda(d), lambda(d - 1), true));
    }

private:
    punct::secret share(const char* what, uint64_t d) const
    {
        punct::secret s;
        std::string   in(what);
        in.append(reinterpret_cast<const char*>(&d), sizeof(d));
        shim::kdf(0x71, key_.shim_data(), punct::kMasterKeySize, in.data(), in.size(), s.data(),
                  s.size());
        return s;
    }
    punct::secret lambda(uint64_t d) const
    {
        return d == 0 ? punct::secret{} : share("lambda", d);
    }
    static punct::key_share_type make(const punct::tag_type& t, const punct::secret& s)
    {
        punct::key_share_type k;
        memcpy(k.data(), t.data(), punct::kTagSize);
        memcpy(k.data() + punct::kTagSize, s.data(), s.size());
        return k;
    }
    Key<punct::kMasterKeySize> key_;
};

class PuncturableDecryption
{
public:
    explicit PuncturableDecryption(punct::punctured_key_type k) : shares_(std::move(k))
    {
        for (const auto& s : shares_) {
            punct::secret x;
            memcpy(x.data(), s.data() + punct::kTagSize, x.size());
            sum_ = punct::add(sum_, x);
        }
    }
    bool is_punctured_on_tag(const punct::tag_type& t) const
    {
        for (size_t i = 1; i < shares_.size(); i++) {
            if (punct::extract_tag(shares_[i]) == t) {
                return true;
            }
        }
        return false;
    }
    bool decrypt(const punct::ciphertext_type& ct, uint64_t& m) const
    {
        punct::tag_type t = punct::extract_tag(ct);
        if (is_punctured_on_tag(t)) {
            return false;
        }
        uint8_t p[16];
        punct::pad(sum_, t, p);
        uint64_t body;
        for (int i = 0; i < 8; i++) {
            reinterpret_cast<uint8_t*>(&body)[i] = p[i] ^ ct[punct::kTagSize + i];
        }
        m = body; // garbage when the key shares do not add up
        return true;
    }

private:
    punct::punctured_key_type shares_;
    punct::secret             sum_{};
};
} // namespace crypto
} // namespace sse
