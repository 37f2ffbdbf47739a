// Trapdoor permutation stand-in: a keyed permutation of the messages whose top
// byte is below 0x80 (an RSA modulus has the same kind of domain restriction).
// It is an increment seen through a Feistel network, so that it can be iterated
// any number of times, in both directions, at the same cost (as RSA can).
// The "public key" and the "private key" are the same seed with different tags:
// only the functional contract matters here.
#pragma once
#include <sse/crypto/prf.hpp>
namespace sse {
namespace crypto {
class Tdp
{
public:
    static constexpr size_t kMessageSize = 256;
    static constexpr size_t kRSAPrfSize  = kMessageSize + 16;
    using message_type                   = std::array<uint8_t, kMessageSize>;

    explicit Tdp(const std::string& pk)
    {
        load(pk, "TDP-PUBLIC-KEY:");
    }
    std::string public_key() const
    {
        return "TDP-PUBLIC-KEY:" + std::string(seed_.begin(), seed_.end());
    }
    message_type eval(const message_type& in) const
    {
        return iterate(in, 1);
    }
    message_type generate_array(const Prf<kRSAPrfSize>& prf, const std::string& seed) const
    {
        auto         a = prf.prf(seed);
        message_type m;
        memcpy(m.data(), a.data(), kMessageSize);
        m[0] &= 0x7F;
        return m;
    }

protected:
    Tdp() = default;
    void load(const std::string& s, const std::string& tag)
    {
        if (s.size() != tag.size() + 32 || s.compare(0, tag.size(), tag) != 0) {
            throw std::runtime_error("Unable to parse the TDP key");
        }
        memcpy(seed_.data(), s.data() + tag.size(), 32);
    }
    static void check(const message_type& m)
    {
        if (m[0] >= 0x80) {
            throw std::runtime_error("TDP: message out of the domain");
        }
    }
    message_type iterate(const message_type& in, uint64_t n) const
    {
        check(in);
        message_type m = in;
        for (uint8_t r = 0; r < 3; r++) {
            round(m, r);
        }
        uint64_t x;
        memcpy(&x, m.data() + 1, sizeof(x));
        x += n;
        memcpy(m.data() + 1, &x, sizeof(x));
        for (uint8_t r = 3; r-- > 0;) {
            round(m, r);
        }
        return m;
    }
    void round(message_type& m, uint8_t r) const
    {
        // two halves: bytes 1..127 and 128..255; byte 0 is a tweak
        uint8_t  f[128];
        uint8_t* l  = m.data() + 1;
        uint8_t* rr = m.data() + 128;
        shim::Sponge sp(0x60u + r);
        sp.absorb(seed_.data(), 32).absorb(m.data(), 1);
        if (r % 2 == 0) {
            sp.absorb(l, 127);
            sp.squeeze(f, 128);
            for (int i = 0; i < 128; i++) rr[i] ^= f[i];
        } else {
            sp.absorb(rr, 128);
            sp.squeeze(f, 127);
            for (int i = 0; i < 127; i++) l[i] ^= f[i];
        }
    }
    std::array<uint8_t, 32> seed_{};
};

class TdpInverse : public Tdp
{
public:
    TdpInverse()
    {
        shim::random_fill(seed_.data(), 32);
    }
    explicit TdpInverse(const std::string& sk)
    {
        load(sk, "TDP-PRIVATE-KEY:");
    }
    TdpInverse(const TdpInverse&) = delete;
    TdpInverse& operator=(const TdpInverse&) = delete;

    std::string private_key() const
    {
        return "TDP-PRIVATE-KEY:" + std::string(seed_.begin(), seed_.end());
    }
    message_type invert(const message_type& in) const
    {
        return iterate(in, ~uint64_t{0});
    }
    message_type invert_mult(const message_type& in, uint32_t order) const
    {
        return iterate(in, ~uint64_t{order} + 1);
    }
};

class TdpMultPool : public Tdp
{
public:
    TdpMultPool(const std::string& pk, uint8_t size) : Tdp(pk), size_(size)
    {
        if (size == 0) {
            throw std::invalid_argument("Invalid multiple TDP pool input size");
        }
    }
    uint8_t maximum_order() const
    {
        return size_;
    }
    uint8_t pool_size() const
    {
        return size_;
    }
    message_type eval(const message_type& in, uint8_t order) const
    {
        if (order == 0 || order > size_) {
            throw std::invalid_argument("Invalid order for this TDP pool.");
        }
        return iterate(in, order);
    }
    message_type eval(const message_type& in) const
    {
        return Tdp::eval(in);
    }

private:
    uint8_t size_;
};
} // namespace crypto
} // namespace sse
