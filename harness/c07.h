// C07: packed arrays are lossless, follow the encoding and never cost more
#pragma once
#include "c06.h"

namespace arr
{

template <typename B>
void c07Body(vh::Case& c)
{
    using T = typename B::Elem;
    auto& r = c.rng;
    constexpr bool obj = std::is_class_v<T> && M<T>::implicitBits == 0 && (M<T>::columns != 1);
    static const K kinds[] = {K::NORMAL, K::ALIGNED, K::AUTO, K::ALIGNED_AUTO};
    const unsigned rounds = obj ? 2 : 4;
    for (unsigned i = 0; i < rounds; ++i)
    {
        B bind;
        zserio::Vector<T> vals;
        bind.gen(r, vals, randomLen(r, obj, c.thorough));
        const K k = kinds[r.below(4)];
        withKind(k, [&](auto a) {
            roundTrip<B, decltype(a)::value, true>(c, k, bind, vals);
        });
        c.clearTrace();
    }
}

// a delta of exactly +-2^k around every packing limit, for each element type
template <typename B>
void c07Edges(vh::Case& c)
{
    using T = typename B::Elem;
    if constexpr (M<T>::columns == 1 && std::is_same_v<B, Plain<T>> && !std::is_enum_v<T> && !zserio::is_bitmask_v<T>)
    {
        using V = typename T::ValueType;
        B bind;
        // domain
        zserio::Vector<T> probe;
        i128 lo = 0;
        i128 hi = 0;
        if constexpr (std::is_same_v<V, bool>)
        {
            hi = 1;
        }
        else
        {
            lo = static_cast<i128>(static_cast<V>(zserio::NumericLimits<T>::min()));
            hi = static_cast<i128>(static_cast<V>(zserio::NumericLimits<T>::max()));
        }
        for (unsigned k = 0; k <= 64; ++k)
        {
            for (int d = -1; d <= 1; ++d)
            {
                const i128 mag = (i128(1) << k) + d;
                if (mag > hi - lo || mag < 0)
                {
                    continue;
                }
                for (int sign = 0; sign < 2; ++sign)
                {
                    const i128 base = lo + static_cast<i128>(c.rng.ubits(64)) % (hi - lo - mag + 1);
                    const i128 a = sign == 0 ? base : base + mag;
                    const i128 b = sign == 0 ? base + mag : base;
                    const size_t n = 2 + c.rng.below(5);
                    zserio::Vector<T> vals;
                    for (size_t i = 0; i < n; ++i)
                    {
                        const i128 x = (i == n - 1) ? b : a;
                        vals.emplace_back(static_cast<V>(x));
                    }
                    roundTrip<B, ArrayType::AUTO, true>(c, K::AUTO, bind, vals);
                    c.clearTrace();
                }
            }
        }
        // more elements than 16 bits count
        {
            static const K kinds[] = {K::NORMAL, K::ALIGNED, K::AUTO, K::ALIGNED_AUTO};
            zserio::Vector<T> vals;
            bind.gen(c.rng, vals, 65530 + c.rng.below(4000));
            if (vals.size() > 65540)
            {
                c.count("longer_than_16_bits");
            }
            const K k = kinds[c.rng.below(4)];
            withKind(k, [&](auto kind) {
                roundTrip<B, decltype(kind)::value, true>(c, k, bind, vals);
            });
            c.clearTrace();
        }
        // long runs where packing just pays off or just does not
        for (size_t n = 2; n < 40; ++n)
        {
            zserio::Vector<T> vals(n, T(static_cast<V>(lo)));
            roundTrip<B, ArrayType::NORMAL, true>(c, K::NORMAL, bind, vals);
            if (hi > lo)
            {
                vals[n - 1] = T(static_cast<V>(lo + 1));
                roundTrip<B, ArrayType::NORMAL, true>(c, K::NORMAL, bind, vals);
            }
            c.clearTrace();
        }
    }
}

// float arrays are never packed (the generator emits plain arrays for them)
inline void noBody(vh::Case&)
{}
template <typename B>
Body packedBody()
{
    if constexpr (M<typename B::Elem>::packable || M<typename B::Elem>::implicitBits == 0)
    {
        return &c07Body<B>;
    }
    else
    {
        return &noBody;
    }
}
template <typename B>
Body edgesBody()
{
    return &c07Edges<B>;
}

} // namespace arr
