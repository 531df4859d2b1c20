// The laws of equality, order and hashing, checked over all pairs and triples of a pool of values.
#pragma once
#include <functional>
#include <vector>

#include "vh.h"
#include "zserio/Extended.h"
#include "zserio/HashCodeUtil.h"
#include "zserio/Optional.h"
#include "zserio/Variant.h"

namespace c15
{

using Eq = std::function<bool(size_t, size_t)>; // whether values i and j are equal by an independent model of them
using Lt = std::function<int(size_t, size_t)>; // 1 / 0 when the model also gives an order, -1 otherwise
using Text = std::function<std::string(size_t)>;
enum Op
{
    EQ,
    NE,
    LT,
    GT,
    LE,
    GE
};
using Cmp = std::function<bool(Op, size_t, size_t)>;

void lawsOf(vh::Case& c, const std::string& what, size_t n, const Cmp& cmp, const Eq& eq, const Lt& lt, const Text& text);
// hash(i): hash code of value i
void hashLaws(vh::Case& c, const std::string& what, size_t n, const Eq& eq, const std::function<uint64_t(size_t)>& hash,
        const Text& text);

template <typename V>
void laws(vh::Case& c, const std::string& what, const V& v, const Eq& eq, const Lt& lt, const Text& text)
{
    lawsOf(
            c, what, v.size(),
            [&v](Op op, size_t i, size_t j) -> bool {
                const auto& a = v[i];
                const auto& b = v[j];
                switch (op)
                {
                case EQ:
                    return a == b;
                case NE:
                    return a != b;
                case LT:
                    return a < b;
                case GT:
                    return a > b;
                case LE:
                    return a <= b;
                default:
                    return a >= b;
                }
            },
            eq, lt, text);
}

inline int NO_ORDER(size_t, size_t)
{
    return -1;
}

// laws of a pool of values with std::hash and calcHashCode()
template <typename V>
void all(vh::Case& c, const std::string& what, const V& v, const Eq& eq, const Lt& lt, const Text& text)
{
    using T = std::decay_t<decltype(v[0])>;
    laws(c, what, v, eq, lt, text);
    const uint32_t seed = c.rng.flip() ? zserio::HASH_SEED : static_cast<uint32_t>(c.rng.next());
    hashLaws(c, what, v.size(), eq, [&](size_t i) { return zserio::calcHashCode(seed, v[i]); }, text);
    if constexpr (std::is_default_constructible_v<std::hash<T>>)
    {
        hashLaws(c, what + "/std", v.size(), eq, [&](size_t i) { return std::hash<T>()(v[i]); }, text);
    }
    // copies are equal to their sources, also when assigned over something else
    const std::vector<T> copies(v.begin(), v.end());
    const size_t n = v.size();
    lawsOf(
            c, what + "/copy", n,
            [&](Op op, size_t i, size_t j) -> bool {
                switch (op)
                {
                case EQ:
                    return copies[i] == v[j];
                case NE:
                    return !(v[i] == copies[j]);
                case LT:
                    return copies[i] < v[j];
                case GT:
                    return copies[j] < v[i];
                case LE:
                    return !(v[j] < copies[i]);
                default:
                    return !(v[i] < copies[j]);
                }
            },
            eq, lt, text);
    for (size_t i = 0; i < n; ++i)
    {
        T other(v[c.rng.below(n)]);
        other = v[i];
        c.check(other == v[i] && zserio::calcHashCode(seed, other) == zserio::calcHashCode(seed, v[i]) &&
                        zserio::calcHashCode(seed, copies[i]) == zserio::calcHashCode(seed, v[i]),
                "copy-assigned", what);
    }
}

void run_std(vh::Case& c);
void run_pmr(vh::Case& c);
void run_ppmr(vh::Case& c);

} // namespace c15
