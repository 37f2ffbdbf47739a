// Stand-in for the OpenSSE crypto library (a git submodule that is not present
// here).  It offers the same interface and the same functional contract
// (determinism, key separation, domain checks, move-only keys that wipe their
// source buffer), built on one ChaCha permutation.  It is a simulator for the
// correctness properties and makes no claim of cryptographic strength.
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>

namespace sse {
namespace crypto {
namespace shim {

inline uint32_t rotl(uint32_t x, int n)
{
    return (x << n) | (x >> (32 - n));
}
template<int ROUNDS>
inline void permute(uint32_t s[16])
{
    auto qr = [s](int a, int b, int c, int d) {
        s[a] += s[b]; s[d] = rotl(s[d] ^ s[a], 16);
        s[c] += s[d]; s[b] = rotl(s[b] ^ s[c], 12);
        s[a] += s[b]; s[d] = rotl(s[d] ^ s[a], 8);
        s[c] += s[d]; s[b] = rotl(s[b] ^ s[c], 7);
    };
    for (int i = 0; i < ROUNDS; i += 2) {
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15);
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14);
    }
}

// sponge, 32 bytes of rate and 32 bytes of capacity
class Sponge
{
public:
    explicit Sponge(uint32_t domain)
    {
        for (int i = 0; i < 16; i++) {
            s_[i] = 0x9E3779B9u * static_cast<uint32_t>(i + 1);
        }
        s_[15] ^= domain;
        permute<8>(s_);
    }
    Sponge& absorb(const void* p, size_t n)
    {
        const auto* b = static_cast<const uint8_t*>(p);
        while (n-- > 0) {
            reinterpret_cast<uint8_t*>(s_)[pos_++] ^= *b++;
            if (pos_ == 32) {
                permute<8>(s_);
                pos_ = 0;
            }
        }
        return *this;
    }
    Sponge& absorb_u64(uint64_t v)
    {
        return absorb(&v, sizeof(v));
    }
    void squeeze(void* out, size_t n)
    {
        reinterpret_cast<uint8_t*>(s_)[pos_] ^= 0x1F;
        reinterpret_cast<uint8_t*>(s_)[31] ^= 0x80;
        permute<8>(s_);
        auto*  o   = static_cast<uint8_t*>(out);
        while (n > 0) {
            size_t k = std::min<size_t>(n, 32);
            memcpy(o, s_, k);
            o += k;
            n -= k;
            if (n > 0) {
                permute<8>(s_);
            }
        }
    }

private:
    uint32_t s_[16];
    size_t   pos_{0};
};

// keyed function with an n-byte output
inline void kdf(uint32_t domain, const uint8_t* key, size_t key_len, const void* in,
                size_t in_len, void* out, size_t out_len)
{
    Sponge sp(domain);
    sp.absorb(key, key_len);
    sp.absorb_u64(in_len);
    sp.absorb(in, in_len);
    sp.squeeze(out, out_len);
}

inline void random_fill(void* p, size_t n);

} // namespace shim
} // namespace crypto
} // namespace sse
