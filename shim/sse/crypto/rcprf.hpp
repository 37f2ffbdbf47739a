// GGM-tree range-constrained PRF: same contract as the real RCPrf (evaluation
// through a constrained key equals evaluation under the full key, and a leaf
// outside the constrained range is refused).
#pragma once
#include <sse/crypto/prg.hpp>

#include <functional>
#include <memory>

namespace sse {
namespace crypto {
namespace shim {
template<size_t N>
using node = std::array<uint8_t, N>;

template<size_t N>
inline node<N> child(const node<N>& n, bool right)
{
    node<N> c;
    uint8_t b = right ? 1 : 0;
    kdf(0x40, n.data(), N, &b, 1, c.data(), N);
    return c;
}
// value of `leaf` (relative to the subtree) in a subtree of height h
template<size_t N>
inline node<N> descend(node<N> n, uint64_t leaf, unsigned h)
{
    while (h > 0) {
        --h;
        n = child<N>(n, ((leaf >> h) & 1) != 0);
    }
    return n;
}
} // namespace shim

template<size_t N>
class RCPrf;

template<size_t N>
class ConstrainedRCPrf
{
public:
    struct Element
    {
        shim::node<N> root;
        uint64_t      min; // first leaf covered
        uint32_t      height;
        uint64_t      last() const
        {
            return min + ((uint64_t{1} << height) - 1);
        }
    };

    explicit ConstrainedRCPrf(std::vector<Element>&& e) : e_(std::move(e)) {}
    ConstrainedRCPrf(ConstrainedRCPrf&&) noexcept = default;
    ConstrainedRCPrf& operator=(ConstrainedRCPrf&&) noexcept = default;
    ConstrainedRCPrf(const ConstrainedRCPrf&)                = delete;
    ConstrainedRCPrf& operator=(const ConstrainedRCPrf&) = delete;

    uint64_t min_leaf() const
    {
        return at(0).min;
    }
    uint64_t max_leaf() const
    {
        return at(e_.size() - 1).last();
    }
    std::array<uint8_t, N> eval(uint64_t leaf) const
    {
        for (const auto& e : e_) {
            if (leaf >= e.min && leaf <= e.last()) {
                return shim::descend<N>(e.root, leaf - e.min, e.height);
            }
        }
        throw std::out_of_range("Leaf outside of the constrained range");
    }
    void eval_range(uint64_t                                                      min,
                    uint64_t                                                      max,
                    const std::function<void(uint64_t, std::array<uint8_t, N>)>& cb) const
    {
        if (max < min) {
            throw std::invalid_argument("Invalid range: min > max");
        }
        if (e_.empty() || min < min_leaf() || max > max_leaf()) {
            throw std::out_of_range("Range outside of the constrained range");
        }
        for (const auto& e : e_) {
            uint64_t lo = std::max(min, e.min);
            uint64_t hi = std::min(max, e.last());
            if (e.last() < min || e.min > max) {
                continue;
            }
            range(e.root, e.min, e.height, lo, hi, cb);
        }
    }

    // Wrapper interface
    std::vector<uint8_t> shim_serialize() const
    {
        std::vector<uint8_t> r;
        auto                 put = [&r](const void* p, size_t n) {
            const auto* b = static_cast<const uint8_t*>(p);
            r.insert(r.end(), b, b + n);
        };
        for (const auto& e : e_) {
            put(e.root.data(), N);
            put(&e.min, sizeof(e.min));
            put(&e.height, sizeof(e.height));
        }
        return r;
    }
    static ConstrainedRCPrf shim_deserialize(const std::vector<uint8_t>& v)
    {
        constexpr size_t sz = N + sizeof(uint64_t) + sizeof(uint32_t);
        if (v.size() % sz != 0) {
            throw std::invalid_argument("Invalid ConstrainedRCPrf representation");
        }
        std::vector<Element> es(v.size() / sz);
        for (size_t i = 0; i < es.size(); i++) {
            const uint8_t* p = v.data() + i * sz;
            memcpy(es[i].root.data(), p, N);
            memcpy(&es[i].min, p + N, sizeof(uint64_t));
            memcpy(&es[i].height, p + N + sizeof(uint64_t), sizeof(uint32_t));
        }
        return ConstrainedRCPrf(std::move(es));
    }

private:
    const Element& at(size_t i) const
    {
        if (i >= e_.size()) {
            throw std::out_of_range("Empty constrained RCPrf");
        }
        return e_[i];
    }
    static void range(const shim::node<N>& n, uint64_t base, unsigned h, uint64_t lo, uint64_t hi,
                      const std::function<void(uint64_t, std::array<uint8_t, N>)>& cb)
    {
        if (h == 0) {
            cb(base, n);
            return;
        }
        uint64_t mid = base + (uint64_t{1} << (h - 1));
        if (lo < mid) {
            range(shim::child<N>(n, false), base, h - 1, lo, std::min(hi, mid - 1), cb);
        }
        if (hi >= mid) {
            range(shim::child<N>(n, true), mid, h - 1, std::max(lo, mid), hi, cb);
        }
    }

    std::vector<Element> e_; // by increasing leaf, contiguous
    friend class RCPrf<N>;
};

template<size_t N>
class RCPrf
{
public:
    RCPrf(Key<N>&& key, uint8_t height) : height_(height)
    {
        memcpy(root_.data(), key.shim_data(), N);
        Key<N> wiped(std::move(key));
    }
    uint64_t leaf_count() const
    {
        return uint64_t{1} << height_;
    }
    std::array<uint8_t, N> eval(uint64_t leaf) const
    {
        if (leaf >= leaf_count()) {
            throw std::out_of_range("Invalid node index");
        }
        return shim::descend<N>(root_, leaf, height_);
    }
    ConstrainedRCPrf<N> constrain(uint64_t min, uint64_t max) const
    {
        if (min > max || max >= leaf_count()) {
            throw std::out_of_range("Invalid constrain range");
        }
        std::vector<typename ConstrainedRCPrf<N>::Element> out;
        cover(root_, 0, height_, min, max, out);
        return ConstrainedRCPrf<N>(std::move(out));
    }

private:
    static void cover(const shim::node<N>& n, uint64_t base, unsigned h, uint64_t lo, uint64_t hi,
                      std::vector<typename ConstrainedRCPrf<N>::Element>& out)
    {
        uint64_t last = base + ((uint64_t{1} << h) - 1);
        if (lo == base && hi == last) {
            out.push_back({n, base, h});
            return;
        }
        uint64_t mid = base + (uint64_t{1} << (h - 1));
        if (lo < mid) {
            cover(shim::child<N>(n, false), base, h - 1, lo, std::min(hi, mid - 1), out);
        }
        if (hi >= mid) {
            cover(shim::child<N>(n, true), mid, h - 1, std::max(lo, mid), hi, out);
        }
    }
    shim::node<N> root_;
    unsigned      height_;
};
} // namespace crypto
} // namespace sse
