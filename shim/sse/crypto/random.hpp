#pragma once
#include <sse/crypto/shim_core.hpp>

#include <mutex>
#include <random>

namespace sse {
namespace crypto {
namespace shim {
// seedable, so that a generated case replays exactly; thread-safe
inline uint64_t& random_state()
{
    static uint64_t s = 0x1234567;
    return s;
}
inline void random_fill(void* p, size_t n)
{
    static std::mutex           m;
    std::lock_guard<std::mutex> l(m);
    uint64_t                    x = ++random_state();
    Sponge(0x52).absorb_u64(x).squeeze(p, n);
}
} // namespace shim

inline void random_bytes(size_t n, unsigned char* out)
{
    shim::random_fill(out, n);
}
template<typename T, size_t N>
inline void random_bytes(std::array<T, N>& a)
{
    shim::random_fill(a.data(), N * sizeof(T));
}
template<typename T, size_t N>
inline std::array<T, N> random_bytes()
{
    std::array<T, N> a;
    random_bytes(a);
    return a;
}
inline std::string random_string(size_t n)
{
    std::string s(n, '\0');
    shim::random_fill(&s[0], n);
    return s;
}
} // namespace crypto
} // namespace sse
