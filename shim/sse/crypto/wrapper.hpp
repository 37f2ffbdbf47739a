// Authenticated wrapping: unwrap returns the wrapped object or throws.
#pragma once
#include <sse/crypto/key.hpp>
#include <sse/crypto/rcprf.hpp>
namespace sse {
namespace crypto {
class Wrapper
{
public:
    static constexpr size_t kKeySize = 32;
    static constexpr size_t kIv      = 16;
    static constexpr size_t kTag     = 16;

    explicit Wrapper(Key<kKeySize>&& k) : key_(std::move(k)) {}

    template<class T>
    std::vector<uint8_t> wrap(const T& c) const
    {
        std::vector<uint8_t> plain = c.shim_serialize();
        std::vector<uint8_t> out(kIv + plain.size() + kTag);
        shim::random_fill(out.data(), kIv);
        mask(out.data(), plain.data(), plain.size(), out.data() + kIv);
        tag(out.data(), kIv + plain.size(), out.data() + kIv + plain.size());
        return out;
    }
    template<class T>
    T unwrap(const std::vector<uint8_t>& in) const
    {
        if (in.size() < kIv + kTag) {
            throw std::invalid_argument("Invalid size for the input buffer");
        }
        uint8_t t[kTag];
        tag(in.data(), in.size() - kTag, t);
        if (memcmp(t, in.data() + in.size() - kTag, kTag) != 0) {
            throw std::runtime_error("Unable to unwrap: authentication failure");
        }
        std::vector<uint8_t> plain(in.size() - kIv - kTag);
        mask(in.data(), in.data() + kIv, plain.size(), plain.data());
        return T::shim_deserialize(plain);
    }

private:
    void mask(const uint8_t* iv, const uint8_t* in, size_t n, uint8_t* out) const
    {
        std::vector<uint8_t> m(n);
        shim::kdf(0x50, key_.shim_data(), kKeySize, iv, kIv, m.data(), n);
        for (size_t i = 0; i < n; i++) {
            out[i] = in[i] ^ m[i];
        }
    }
    void tag(const uint8_t* in, size_t n, uint8_t* out) const
    {
        shim::kdf(0x51, key_.shim_data(), kKeySize, in, n, out, kTag);
    }
    Key<kKeySize> key_;
};
} // namespace crypto
} // namespace sse
