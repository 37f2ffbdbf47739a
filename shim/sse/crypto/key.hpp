#pragma once
#include <sse/crypto/random.hpp>
#include <sse/crypto/shim_core.hpp>

namespace sse {
namespace crypto {

// Move-only.  As in the real library, building a key from a buffer wipes the
// buffer, and a moved-from key is empty (using it is a programming error).
template<size_t N>
class Key
{
public:
    static constexpr size_t kKeySize = N;

    Key() : set_(true)
    {
        shim::random_fill(k_.data(), N);
    }
    explicit Key(uint8_t* const p) : set_(true)
    {
        if (p == nullptr) {
            throw std::invalid_argument("Invalid key: key == NULL");
        }
        memcpy(k_.data(), p, N);
        memset(p, 0, N);
    }
    Key(Key&& o) noexcept : k_(o.k_), set_(o.set_)
    {
        o.clear();
    }
    Key& operator=(Key&& o) noexcept
    {
        if (this != &o) {
            k_   = o.k_;
            set_ = o.set_;
            o.clear();
        }
        return *this;
    }
    Key(const Key&) = delete;
    Key& operator=(const Key&) = delete;

    bool is_empty() const noexcept
    {
        return !set_;
    }
    // shim only
    const uint8_t* shim_data() const
    {
        if (!set_) {
            throw std::runtime_error("Key is empty");
        }
        return k_.data();
    }

private:
    void clear()
    {
        k_.fill(0);
        set_ = false;
    }
    std::array<uint8_t, N> k_;
    bool                   set_;
};
} // namespace crypto
} // namespace sse
