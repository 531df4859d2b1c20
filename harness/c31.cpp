// C31: numeric wrapper types behave like the C++ values they hold; bit field bounds, alignment and size conversion
#include <cmath>
#include <cstring>
#include <limits>
#include <set>
#include <type_traits>
#include <utility>

#include "vh.h"
#include "zserio/BitFieldUtil.h"
#include "zserio/BitPositionUtil.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/SizeConvertUtil.h"
#include "zserio/Types.h"

namespace
{

using i128 = __int128;

template <typename V>
std::string num(V v)
{
    if constexpr (std::is_floating_point_v<V>)
    {
        char b[40];
        snprintf(b, sizeof b, "%.17g", static_cast<double>(v));
        return b;
    }
    else if constexpr (std::is_signed_v<V>)
    {
        return std::to_string(static_cast<long long>(v));
    }
    else
    {
        return std::to_string(static_cast<unsigned long long>(v));
    }
}
template <typename V>
bool same(V a, V b)
{
    if constexpr (std::is_floating_point_v<V>)
    {
        return std::memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b);
    }
    return a == b;
}
// an interesting value of a type
template <typename V>
V value(vh::Rng& r)
{
    if constexpr (std::is_same_v<V, bool>)
    {
        return r.flip();
    }
    else if constexpr (std::is_floating_point_v<V>)
    {
        switch (r.below(6))
        {
        case 0:
            return static_cast<V>(r.range(-4, 4));
        case 1:
            return std::numeric_limits<V>::infinity() * (r.flip() ? 1 : -1);
        case 2:
            return std::numeric_limits<V>::quiet_NaN();
        case 3:
            return r.flip() ? V(0) : -V(0);
        case 4:
            return static_cast<V>(static_cast<double>(r.sbits(40)) / 1024.0);
        default:
            return r.flip() ? std::numeric_limits<V>::max() : std::numeric_limits<V>::min();
        }
    }
    else
    {
        constexpr unsigned bits = sizeof(V) * 8;
        switch (r.below(5))
        {
        case 0:
            return static_cast<V>(r.range(-3, 3));
        case 1:
            return static_cast<V>(std::numeric_limits<V>::max() - static_cast<V>(r.below(3)));
        case 2:
            return static_cast<V>(std::numeric_limits<V>::min() + static_cast<V>(r.below(3)));
        case 3:
            return static_cast<V>(uint64_t(1) << r.below(bits));
        default:
            return static_cast<V>(r.ubits(1 + static_cast<unsigned>(r.below(bits))));
        }
    }
}

// the low bits of an exact result, as the type keeps them; `defined` false where C++ gives no result
template <typename V>
struct Exact
{
    i128 v = 0;
    bool defined = true;
};
template <typename V>
bool fits(i128 v)
{
    // arithmetic happens in the promoted type
    using P = decltype(V() + V());
    return !std::is_signed_v<P> || (v >= static_cast<i128>(std::numeric_limits<P>::min()) && v <= static_cast<i128>(std::numeric_limits<P>::max()));
}

template <typename T>
void history(vh::Case& c, const char* name)
{
    using V = typename T::ValueType;
    auto& r = c.rng;
    static_assert(std::is_nothrow_default_constructible_v<T> && sizeof(T) == sizeof(V));
    const T zero{};
    VH_CHECK(c, same(static_cast<V>(zero), V()), "default-value", name);
    V model = value<V>(r);
    T x(model);
    uint64_t h = vh::hashStr(name);
    std::string log = vh::str(name, " ", num(model));
    const auto agree = [&](const char* what) {
        const V got = x;
        VH_CHECK(c, same(got, model), "value", what, ": ", num(got), " expected ", num(model), " after ", log);
    };
    agree("constructed");
    const size_t steps = 1 + r.below(c.thorough ? 30 : 14);
    for (size_t s = 0; s < steps; ++s)
    {
        const V o = value<V>(r);
        const auto op = r.below(18);
        log += vh::str("; ", op, " ", num(o));
        h = vh::mix(h, op * 31 + vh::hashStr(num(o)));
        // what an operator returns must be the object itself
        const auto self = [&](const auto& ret) {
            VH_CHECK(c, static_cast<const void*>(&ret) == static_cast<const void*>(&x), "returns-itself", log);
        };
        if (op == 0)
        {
            self(x = T(o));
            model = o;
        }
        else if (op == 1)
        {
            T copy(x);
            std::swap(copy, x);
            VH_CHECK(c, same(static_cast<V>(copy), model), "copy", log);
        }
        else if (op == 2) // comparisons of wrappers and of wrappers with plain values
        {
            const T y(o);
            const auto a = model;
            VH_EQ(c, x == y, a == o, "equal", log);
            VH_EQ(c, x != y, a != o, "not-equal", log);
            VH_EQ(c, x < y, a < o, "less", log);
            VH_EQ(c, x <= y, a <= o, "less-equal", log);
            VH_EQ(c, x > y, a > o, "greater", log);
            VH_EQ(c, x >= y, a >= o, "greater-equal", log);
            VH_EQ(c, x == o, a == o, "equal-plain", log);
            VH_EQ(c, o == x, a == o, "plain-equal", log);
            c.count("comparisons");
        }
        else if constexpr (!std::is_same_v<V, bool>)
        {
            if constexpr (std::is_floating_point_v<V>)
            {
                switch (op)
                {
                case 3:
                    self(x += o);
                    model = static_cast<V>(model + o);
                    break;
                case 4:
                    self(x -= o);
                    model = static_cast<V>(model - o);
                    break;
                case 5:
                    self(x *= o);
                    model = static_cast<V>(model * o);
                    break;
                case 6:
                    if (o == 0)
                    {
                        break;
                    }
                    self(x /= o);
                    model = static_cast<V>(model / o);
                    break;
                case 7:
                    self(++x);
                    model = static_cast<V>(model + 1);
                    break;
                case 8:
                {
                    const V before = model;
                    const V got = x++;
                    VH_CHECK(c, same(got, before), "post-increment-result", log);
                    model = static_cast<V>(model + 1);
                    break;
                }
                case 9:
                    self(--x);
                    model = static_cast<V>(model - 1);
                    break;
                case 10:
                {
                    const V before = model;
                    const V got = x--;
                    VH_CHECK(c, same(got, before), "post-decrement-result", log);
                    model = static_cast<V>(model - 1);
                    break;
                }
                default:
                    break;
                }
            }
            else
            {
                const i128 a = model;
                const i128 b = o;
                constexpr unsigned bits = sizeof(V) * 8;
                i128 want = 0;
                const auto arithmetic = [&](i128 exact) {
                    want = exact;
                    return fits<V>(exact);
                };
                switch (op)
                {
                case 3:
                    if (arithmetic(a + b))
                    {
                        self(x += o);
                        model = static_cast<V>(want);
                    }
                    break;
                case 4:
                    if (arithmetic(a - b))
                    {
                        self(x -= o);
                        model = static_cast<V>(want);
                    }
                    break;
                case 5:
                    if constexpr (std::is_signed_v<V> || sizeof(V) < 8)
                    {
                        if (arithmetic(a * b))
                        {
                            self(x *= o);
                            model = static_cast<V>(want);
                        }
                    }
                    else
                    {
                        self(x *= o);
                        model = static_cast<V>(static_cast<unsigned __int128>(model) * o);
                    }
                    break;
                case 6:
                    if (b != 0 && arithmetic(a / b))
                    {
                        self(x /= o);
                        model = static_cast<V>(want);
                    }
                    break;
                case 7:
                    if (b != 0 && arithmetic(a / b))
                    {
                        self(x %= o);
                        model = static_cast<V>(a % b);
                    }
                    break;
                case 8:
                    self(x &= o);
                    model = static_cast<V>(a & b);
                    break;
                case 9:
                    self(x |= o);
                    model = static_cast<V>(a | b);
                    break;
                case 10:
                    self(x ^= o);
                    model = static_cast<V>(a ^ b);
                    break;
                case 11:
                {
                    const auto n = static_cast<V>(r.below(bits));
                    if (a >= 0 && arithmetic(std::is_signed_v<V> || bits < 32 ? a << static_cast<unsigned>(n) : 0))
                    {
                        self(x <<= n);
                        model = static_cast<V>(a << static_cast<unsigned>(n));
                        log += vh::str(" by ", num(n));
                    }
                    break;
                }
                case 12:
                {
                    const auto n = static_cast<V>(r.below(bits));
                    self(x >>= n);
                    model = static_cast<V>(a >> static_cast<unsigned>(n));
                    log += vh::str(" by ", num(n));
                    break;
                }
                case 13:
                    if (arithmetic(a + 1))
                    {
                        self(++x);
                        model = static_cast<V>(want);
                    }
                    break;
                case 14:
                    if (arithmetic(a + 1))
                    {
                        const V before = model;
                        const V got = x++;
                        VH_CHECK(c, got == before, "post-increment-result", log);
                        model = static_cast<V>(want);
                    }
                    break;
                case 15:
                    if (arithmetic(a - 1))
                    {
                        self(--x);
                        model = static_cast<V>(want);
                    }
                    break;
                case 16:
                    if (arithmetic(a - 1))
                    {
                        const V before = model;
                        const V got = x--;
                        VH_CHECK(c, got == before, "post-decrement-result", log);
                        model = static_cast<V>(want);
                    }
                    break;
                default: // in expressions
                {
                    const T y(o);
                    if (arithmetic(a - b))
                    {
                        using P = decltype(model - o);
                        VH_CHECK(c, static_cast<P>(x - y) == static_cast<P>(want), "expression", log);
                    }
                    const std::set<T> ordered{x, y};
                    VH_EQ(c, ordered.size(), model == o ? size_t(1) : size_t(2), "ordered", log);
                    break;
                }
                }
            }
        }
        else
        {
            if (op < 7)
            {
                switch (op)
                {
                case 3:
                    self(x &= o);
                    model = model && o;
                    break;
                case 4:
                    self(x |= o);
                    model = model || o;
                    break;
                case 5:
                    self(x ^= o);
                    model = model != o;
                    break;
                default:
                    VH_EQ(c, !x, !model, "not", log);
                    break;
                }
            }
        }
        agree("after the operation");
        c.count("steps");
    }
    if (c.wantSample())
    {
        c.sample(log);
    }
    c.distinct(h);
}

template <unsigned... N>
void fixedTypes(vh::Case& c)
{
    ((history<zserio::Int<N>>(c, "int"), history<zserio::UInt<N>>(c, "uint")), ...);
}

} // namespace

VH_SECTION(fixed, 600, 60000)
{
    fixedTypes<1, 5, 8, 9, 13, 16, 17, 31, 32, 33, 57, 63, 64>(c);
}
VH_SECTION(others, 1000, 200000)
{
    history<zserio::Bool>(c, "bool");
    history<zserio::DynInt8>(c, "DynInt8");
    history<zserio::DynInt16>(c, "DynInt16");
    history<zserio::DynInt32>(c, "DynInt32");
    history<zserio::DynInt64>(c, "DynInt64");
    history<zserio::DynUInt8>(c, "DynUInt8");
    history<zserio::DynUInt16>(c, "DynUInt16");
    history<zserio::DynUInt32>(c, "DynUInt32");
    history<zserio::DynUInt64>(c, "DynUInt64");
    history<zserio::VarInt16>(c, "VarInt16");
    history<zserio::VarInt32>(c, "VarInt32");
    history<zserio::VarInt64>(c, "VarInt64");
    history<zserio::VarInt>(c, "VarInt");
    history<zserio::VarUInt16>(c, "VarUInt16");
    history<zserio::VarUInt32>(c, "VarUInt32");
    history<zserio::VarUInt64>(c, "VarUInt64");
    history<zserio::VarUInt>(c, "VarUInt");
    history<zserio::VarSize>(c, "VarSize");
    history<zserio::Float16>(c, "Float16");
    history<zserio::Float32>(c, "Float32");
    history<zserio::Float64>(c, "Float64");
}

VH_SECTION(bit_fields, 70, 200)
{
    // every length
    for (size_t n = 0; n < 130 + c.idx * 1000; n += n < 130 ? 1 : 997)
    {
        for (const bool s : {false, true})
        {
            const auto thrown = [&](auto f) {
                try
                {
                    f();
                }
                catch (const zserio::CppRuntimeException&)
                {
                    return true;
                }
                return false;
            };
            int64_t lo = 0;
            uint64_t hi = 0;
            const bool t1 = thrown([&]() { lo = zserio::getBitFieldLowerBound(n, s); });
            const bool t2 = thrown([&]() { hi = zserio::getBitFieldUpperBound(n, s); });
            const bool bad = n < 1 || n > 64;
            VH_CHECK(c, t1 == bad && t2 == bad, "invalid-length", n);
            if (!bad)
            {
                const i128 wlo = s ? -(i128(1) << (n - 1)) : 0;
                const i128 whi = s ? (i128(1) << (n - 1)) - 1 : (i128(1) << n) - 1;
                VH_CHECK(c, lo == wlo, "lower-bound", n, s);
                VH_CHECK(c, hi == whi, "upper-bound", n, s);
                c.count("bounds");
            }
            else
            {
                c.count("refused");
            }
        }
    }
    c.distinct(c.idx);
}

VH_SECTION(positions, 2000, 400000)
{
    auto& r = c.rng;
    const auto pos = static_cast<zserio::BitSize>(r.flip() ? r.below(300) : r.ubits(30));
    const auto align = static_cast<zserio::BitSize>(r.flip() ? uint64_t(1) << r.below(8) : r.below(70));
    const zserio::BitSize got = zserio::alignTo(align, pos);
    if (align == 0)
    {
        VH_EQ(c, got, pos, "no-alignment", pos);
    }
    else
    {
        VH_CHECK(c, got % align == 0 && got >= pos && got - pos < align, "aligned", pos, " to ", align, " gave ", got);
        c.count(got == pos ? "already_aligned" : "moved");
    }
    c.distinct(vh::mix(pos, align));
    const uint64_t sizes[] = {0, 1, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, ~uint64_t(0), r.next(), r.ubits(33), r.ubits(32)};
    for (const uint64_t v : sizes)
    {
        bool thrown = false;
        uint32_t small = 0;
        try
        {
            small = zserio::convertSizeToUInt32(static_cast<size_t>(v));
        }
        catch (const zserio::CppRuntimeException&)
        {
            thrown = true;
        }
        VH_CHECK(c, thrown == (v > 0xffffffffU), "size-to-uint32", v);
        VH_CHECK(c, thrown || small == v, "size-to-uint32-value", v);
        VH_CHECK(c, zserio::convertUInt64ToSize(v) == v, "uint64-to-size", v);
        c.count(thrown ? "sizes_refused" : "sizes_converted");
    }
}

// limits of floating point types are the largest and the smallest normal value of the stored format
VH_SECTION(float_limits, 1, 1)
{
    const auto stored = [](auto v) {
        uint8_t buf[8] = {};
        zserio::BitStreamWriter w(buf, 64, zserio::BitsTag());
        zserio::detail::write(w, v);
        uint64_t bits = 0;
        for (size_t i = 0; i < w.getBitPosition() / 8; ++i)
        {
            bits = bits << 8 | buf[i];
        }
        return bits;
    };
    VH_EQ(c, stored(zserio::NumericLimits<zserio::Float16>::max()), 0x7BFFU, "float16-max", "");
    VH_EQ(c, stored(zserio::NumericLimits<zserio::Float16>::min()), 0x0400U, "float16-min", "");
    VH_EQ(c, stored(zserio::NumericLimits<zserio::Float32>::max()), 0x7F7FFFFFU, "float32-max", "");
    VH_EQ(c, stored(zserio::NumericLimits<zserio::Float32>::min()), 0x00800000U, "float32-min", "");
    VH_EQ(c, stored(zserio::NumericLimits<zserio::Float64>::max()), 0x7FEFFFFFFFFFFFFFU, "float64-max", "");
    VH_EQ(c, stored(zserio::NumericLimits<zserio::Float64>::min()), 0x0010000000000000U, "float64-min", "");
}
