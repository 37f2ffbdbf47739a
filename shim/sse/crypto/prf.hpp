#pragma once
#include <sse/crypto/hash.hpp>
#include <sse/crypto/key.hpp>

namespace sse {
namespace crypto {
template<size_t N>
class Prf
{
public:
    static constexpr size_t kKeySize = 32;

    Prf() = default;
    explicit Prf(Key<kKeySize>&& key) : key_(std::move(key)) {}
    Prf(Prf&&) noexcept = default;
    Prf& operator=(Prf&&) noexcept = default;
    Prf(const Prf&)                = delete;
    Prf& operator=(const Prf&) = delete;

    std::array<uint8_t, N> prf(const unsigned char* in, size_t len) const
    {
        std::array<uint8_t, N> r;
        shim::kdf(0x10, key_.shim_data(), kKeySize, in, len, r.data(), N);
        return r;
    }
    std::array<uint8_t, N> prf(const std::string& s) const
    {
        return prf(reinterpret_cast<const unsigned char*>(s.data()), s.size());
    }
    template<size_t L>
    std::array<uint8_t, N> prf(const std::array<uint8_t, L>& in) const
    {
        return prf(in.data(), L);
    }
    Key<N> derive_key(const unsigned char* in, size_t len) const
    {
        auto a = prf(in, len);
        return Key<N>(a.data());
    }
    Key<N> derive_key(const std::string& s) const
    {
        return derive_key(reinterpret_cast<const unsigned char*>(s.data()), s.size());
    }

private:
    Key<kKeySize> key_;
};
} // namespace crypto
} // namespace sse
