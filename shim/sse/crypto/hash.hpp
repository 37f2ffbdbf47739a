#pragma once
#include <sse/crypto/shim_core.hpp>
namespace sse {
namespace crypto {
class Hash
{
public:
    static constexpr size_t kDigestSize = 64;
    static void hash(const unsigned char* in, size_t len, unsigned char* out)
    {
        hash(in, len, kDigestSize, out);
    }
    // first out_len bytes of the digest
    static void hash(const unsigned char* in, size_t len, size_t out_len, unsigned char* out)
    {
        if (in == nullptr || out == nullptr || out_len > kDigestSize) {
            throw std::invalid_argument("Hash: invalid argument");
        }
        uint8_t d[kDigestSize];
        shim::Sponge sp(0x30);
        sp.absorb_u64(len).absorb(in, len);
        sp.squeeze(d, kDigestSize);
        memcpy(out, d, out_len);
    }
    static std::string hash(const std::string& in)
    {
        std::string r(kDigestSize, '\0');
        hash(reinterpret_cast<const unsigned char*>(in.data()), in.size(),
             reinterpret_cast<unsigned char*>(&r[0]));
        return r;
    }
};
} // namespace crypto
} // namespace sse
