#pragma once
#include <sse/crypto/key.hpp>
namespace sse {
namespace crypto {
class Prg
{
public:
    static constexpr size_t kKeySize = 32;
    explicit Prg(Key<kKeySize>&& k) : key_(std::move(k)) {}

    // bytes [offset, offset+len) of the key's output stream
    void derive(size_t offset, size_t len, unsigned char* out) const
    {
        while (len > 0) {
            uint64_t block = offset / 32;
            size_t   in    = offset % 32;
            size_t   n     = std::min(len, 32 - in);
            uint8_t  b[32];
            shim::kdf(0x20, key_.shim_data(), kKeySize, &block, sizeof(block), b, 32);
            memcpy(out, b + in, n);
            out += n;
            offset += n;
            len -= n;
        }
    }
    void derive(size_t len, unsigned char* out) const
    {
        derive(0, len, out);
    }

private:
    Key<kKeySize> key_;
};
} // namespace crypto
} // namespace sse
