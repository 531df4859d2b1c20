// Reference models of array elements, arrays and packed arrays.
#pragma once
#include <memory>

#include "objs.h"
#include "ops.h"
#include "zserio/GenericAccessor.h"

namespace arr
{

using ref::Bits;
using ref::i128;
using ref::Var;

// sequence of integers in [lo, hi] with a shape that matters for delta packing
inline std::vector<i128> genSeq(vh::Rng& r, i128 lo, i128 hi, size_t n)
{
    std::vector<i128> v;
    v.reserve(n);
    const auto clampv = [&](i128 x) {
        return x < lo ? lo : (x > hi ? hi : x);
    };
    const auto any = [&]() -> i128 {
        switch (r.below(6))
        {
        case 0:
            return clampv(lo + static_cast<i128>(r.below(3)));
        case 1:
            return clampv(hi - static_cast<i128>(r.below(3)));
        case 2:
            return clampv(static_cast<i128>(r.range(-2, 2)));
        case 3:
            return clampv(static_cast<i128>(r.sbits(1 + static_cast<unsigned>(r.below(64)))));
        default:
        {
            const i128 span = hi - lo + 1;
            const i128 x = static_cast<i128>(r.ubits(64)) % span;
            return lo + x;
        }
        }
    };
    const unsigned mode = static_cast<unsigned>(r.below(8));
    i128 cur = any();
    const unsigned stepBits = 1 + static_cast<unsigned>(r.below(64));
    const i128 other = any();
    for (size_t i = 0; i < n; ++i)
    {
        switch (mode)
        {
        case 0: // constant
            v.push_back(cur);
            break;
        case 1: // small steps
            v.push_back(cur);
            cur = clampv(cur + r.range(-3, 3));
            break;
        case 2: // steps of a bounded width
        {
            v.push_back(cur);
            const i128 mag = static_cast<i128>(r.ubits(stepBits > 63 ? 63 : stepBits));
            i128 nx = r.flip() ? cur + mag : cur - mag;
            if (nx < lo || nx > hi)
            {
                nx = r.flip() ? cur - mag : cur + mag;
            }
            cur = clampv(nx);
            break;
        }
        case 3: // exactly plus/minus a power of two (around the delta width limits)
        {
            v.push_back(cur);
            const i128 mag = (i128(1) << (stepBits - 1)) + static_cast<i128>(r.range(-1, 1));
            i128 nx = (i & 1U) != 0 ? cur + mag : cur - mag;
            if (nx < lo || nx > hi)
            {
                nx = (i & 1U) != 0 ? cur - mag : cur + mag;
            }
            cur = clampv(nx);
            break;
        }
        case 4: // alternating extremes
            v.push_back((i & 1U) != 0 ? lo : hi);
            break;
        case 5: // constant with one outlier
            v.push_back(r.below(n) == 0 ? other : cur);
            break;
        default:
            v.push_back(any());
            break;
        }
    }
    return v;
}

// one delta packed field
struct Col
{
    std::vector<i128> v;
    uint64_t unpacked = 0;
    unsigned first = 0;
    bool packed = false;
    unsigned maxBits = 0;
    size_t emitted = 0;
    uint64_t emittedBits = 0;

    void add(i128 x, unsigned bits)
    {
        if (v.empty())
        {
            first = bits;
        }
        v.push_back(x);
        unpacked += bits;
    }
    void finish()
    {
        for (size_t i = 1; i < v.size(); ++i)
        {
            const i128 d = v[i] > v[i - 1] ? v[i] - v[i - 1] : v[i - 1] - v[i];
            const unsigned n = ref::bitLength(d);
            if (n > maxBits)
            {
                maxBits = n;
            }
        }
        const uint64_t db = maxBits != 0 ? maxBits + 1 : 0;
        packed = v.size() >= 2 && maxBits <= 62 && 7 + first + (v.size() - 1) * db < 1 + unpacked;
    }
    template <typename F>
    void emit(Bits& b, F&& raw)
    {
        const size_t p0 = b.size();
        if (emitted == 0)
        {
            b.put(packed ? 1 : 0, 1);
            if (packed)
            {
                b.put(maxBits, 6);
            }
            raw();
        }
        else if (!packed)
        {
            raw();
        }
        else if (maxBits != 0)
        {
            ref::putInt(b, v[emitted] - v[emitted - 1], maxBits + 1);
        }
        ++emitted;
        emittedBits += b.size() - p0;
    }
};

template <typename T, typename = void>
struct M;

template <typename T>
inline std::string numText(const T& v)
{
    const i128 x = M<T>::num(v);
    const uint64_t a = static_cast<uint64_t>(x < 0 ? -x : x);
    return vh::str(x < 0 ? "-" : "", a);
}

// scalar integer models share everything but domain and encoding
template <typename T, typename D>
struct IntModel
{
    static constexpr bool packable = true;
    static constexpr size_t columns = 1;
    static void gen(vh::Rng& r, zserio::Vector<T>& out, size_t n)
    {
        out.clear();
        for (const i128 x : genSeq(r, D::lo(), D::hi(), n))
        {
            out.emplace_back(D::make(x));
        }
    }
    static i128 num(const T& v)
    {
        return D::num(v);
    }
    static void enc(Bits& b, const T& v)
    {
        D::encode(b, num(v));
    }
    static bool same(const T& a, const T& b)
    {
        return num(a) == num(b);
    }
    static std::string text(const T& v)
    {
        return numText(v);
    }
    static void plan(Col* c, const T& v)
    {
        Bits b;
        enc(b, v);
        c->add(num(v), static_cast<unsigned>(b.size()));
    }
    static void encPacked(Bits& b, const T& v, Col* c)
    {
        c->emit(b, [&]() {
            enc(b, v);
        });
    }
};

template <unsigned N, bool S>
struct FixedDom
{
    using T = zserio::detail::FixedIntWrapper<N, S>;
    static i128 lo()
    {
        return S ? -(i128(1) << (N - 1)) : 0;
    }
    static i128 hi()
    {
        return (i128(1) << (S ? N - 1 : N)) - 1;
    }
    static T make(i128 x)
    {
        return T(static_cast<typename T::ValueType>(x));
    }
    static i128 num(const T& v)
    {
        return static_cast<i128>(static_cast<typename T::ValueType>(v));
    }
    static void encode(Bits& b, i128 x)
    {
        ref::putInt(b, x, N);
    }
};
template <zserio::BitSize N, bool S>
struct M<zserio::detail::FixedIntWrapper<N, S>> : IntModel<zserio::detail::FixedIntWrapper<N, S>, FixedDom<N, S>>
{
    static constexpr unsigned implicitBits = N;
    static std::string name()
    {
        return vh::str(S ? "int" : "uint", N);
    }
};

struct BoolDom
{
    static i128 lo()
    {
        return 0;
    }
    static i128 hi()
    {
        return 1;
    }
    static zserio::Bool make(i128 x)
    {
        return zserio::Bool(x != 0);
    }
    static i128 num(const zserio::Bool& v)
    {
        return static_cast<bool>(v) ? 1 : 0;
    }
    static void encode(Bits& b, i128 x)
    {
        b.put(static_cast<uint64_t>(x), 1);
    }
};
template <>
struct M<zserio::Bool> : IntModel<zserio::Bool, BoolDom>
{
    static constexpr unsigned implicitBits = 1;
    static std::string name()
    {
        return "bool";
    }
};

template <typename T>
constexpr Var varOf()
{
    if constexpr (std::is_same_v<T, zserio::VarInt16>)
    {
        return Var::I16;
    }
    else if constexpr (std::is_same_v<T, zserio::VarInt32>)
    {
        return Var::I32;
    }
    else if constexpr (std::is_same_v<T, zserio::VarInt64>)
    {
        return Var::I64;
    }
    else if constexpr (std::is_same_v<T, zserio::VarInt>)
    {
        return Var::I;
    }
    else if constexpr (std::is_same_v<T, zserio::VarUInt16>)
    {
        return Var::U16;
    }
    else if constexpr (std::is_same_v<T, zserio::VarUInt32>)
    {
        return Var::U32;
    }
    else if constexpr (std::is_same_v<T, zserio::VarUInt64>)
    {
        return Var::U64;
    }
    else if constexpr (std::is_same_v<T, zserio::VarUInt>)
    {
        return Var::U;
    }
    else
    {
        return Var::SIZE;
    }
}
template <typename T>
struct VarDom
{
    static i128 lo()
    {
        return ref::varMin(varOf<T>());
    }
    static i128 hi()
    {
        const i128 m = ref::varMax(varOf<T>());
        const i128 c = (std::is_signed_v<typename T::ValueType>) ? static_cast<i128>(INT64_MAX) : static_cast<i128>(UINT64_MAX);
        return m < c ? m : c;
    }
    static T make(i128 x)
    {
        return T(static_cast<typename T::ValueType>(x));
    }
    static i128 num(const T& v)
    {
        return static_cast<i128>(static_cast<typename T::ValueType>(v));
    }
    static void encode(Bits& b, i128 x)
    {
        ref::putVar(b, varOf<T>(), x);
    }
};
template <typename VT, zserio::detail::VarIntType K>
struct M<zserio::detail::VarIntWrapper<VT, K>>
        : IntModel<zserio::detail::VarIntWrapper<VT, K>, VarDom<zserio::detail::VarIntWrapper<VT, K>>>
{
    static constexpr unsigned implicitBits = 0;
    static std::string name()
    {
        return ref::varName(varOf<zserio::detail::VarIntWrapper<VT, K>>());
    }
};

template <typename T>
struct PlainModel
{
    static constexpr bool packable = false;
    static constexpr size_t columns = 0;
    static void plan(Col*, const T&)
    {}
    static void encPacked(Bits&, const T&, Col*)
    {}
};

template <typename VT, zserio::detail::FloatType K>
struct M<zserio::detail::FloatWrapper<VT, K>> : PlainModel<zserio::detail::FloatWrapper<VT, K>>
{
    using T = zserio::detail::FloatWrapper<VT, K>;
    static constexpr unsigned implicitBits =
            K == zserio::detail::FloatType::FLOAT16 ? 16 : (K == zserio::detail::FloatType::FLOAT32 ? 32 : 64);
    static std::string name()
    {
        return vh::str("float", implicitBits);
    }
    static void gen(vh::Rng& r, zserio::Vector<T>& out, size_t n)
    {
        out.clear();
        for (size_t i = 0; i < n; ++i)
        {
            if constexpr (implicitBits == 16)
            {
                out.emplace_back(static_cast<float>(ref::halfValue(static_cast<uint16_t>(r.ubits(16)))));
            }
            else if constexpr (implicitBits == 32)
            {
                out.emplace_back(ops::randomF32(r));
            }
            else
            {
                out.emplace_back(ref::bitsF64(r.ubits(64)));
            }
        }
    }
    static void enc(Bits& b, const T& v)
    {
        const VT x = static_cast<VT>(v);
        if constexpr (implicitBits == 16)
        {
            b.put(ref::toHalf(x), 16);
        }
        else if constexpr (implicitBits == 32)
        {
            b.put(ref::f32bits(x), 32);
        }
        else
        {
            b.put(ref::f64bits(x), 64);
        }
    }
    static bool same(const T& a, const T& b)
    {
        const VT x = static_cast<VT>(a);
        const VT y = static_cast<VT>(b);
        if (std::isnan(x) || std::isnan(y))
        {
            return std::isnan(x) && std::isnan(y);
        }
        return x == y && std::signbit(x) == std::signbit(y);
    }
    static std::string text(const T& v)
    {
        return vh::str(static_cast<double>(static_cast<VT>(v)));
    }
};

template <>
struct M<zserio::Bytes> : PlainModel<zserio::Bytes>
{
    static constexpr unsigned implicitBits = 0;
    static std::string name()
    {
        return "bytes";
    }
    static void gen(vh::Rng& r, zserio::Vector<zserio::Bytes>& out, size_t n)
    {
        out.clear();
        for (size_t i = 0; i < n; ++i)
        {
            const std::string s = ops::randomBlob(r, 40);
            out.emplace_back(s.begin(), s.end());
        }
    }
    static void enc(Bits& b, const zserio::Bytes& v)
    {
        ref::putBlob(b, std::string_view(reinterpret_cast<const char*>(v.data()), v.size()));
    }
    static bool same(const zserio::Bytes& a, const zserio::Bytes& b)
    {
        return a == b;
    }
    static std::string text(const zserio::Bytes& v)
    {
        return vh::hex(v.data(), v.size(), 16);
    }
};

template <>
struct M<zserio::String> : PlainModel<zserio::String>
{
    static constexpr unsigned implicitBits = 0;
    static std::string name()
    {
        return "string";
    }
    static void gen(vh::Rng& r, zserio::Vector<zserio::String>& out, size_t n)
    {
        out.clear();
        for (size_t i = 0; i < n; ++i)
        {
            out.emplace_back(ops::randomBlob(r, 40));
        }
    }
    static void enc(Bits& b, const zserio::String& v)
    {
        ref::putBlob(b, v);
    }
    static bool same(const zserio::String& a, const zserio::String& b)
    {
        return a == b;
    }
    static std::string text(const zserio::String& v)
    {
        return vh::hex(v.data(), v.size(), 16);
    }
};

inline Bits bufBits(const zserio::BitBuffer& b)
{
    return Bits::fromBytes(b.getBuffer(), b.getBitSize());
}

inline zserio::BitBuffer randomBitBuffer(vh::Rng& r, size_t maxBytes)
{
    const std::string s = ops::randomBlob(r, maxBytes);
    size_t bits = s.size() * 8;
    if (bits != 0)
    {
        bits -= r.below(8);
    }
    return zserio::BitBuffer(
            zserio::Span<const uint8_t>(reinterpret_cast<const uint8_t*>(s.data()), s.size()), bits);
}

template <>
struct M<zserio::BitBuffer> : PlainModel<zserio::BitBuffer>
{
    static constexpr unsigned implicitBits = 0;
    static std::string name()
    {
        return "extern";
    }
    static void gen(vh::Rng& r, zserio::Vector<zserio::BitBuffer>& out, size_t n)
    {
        out.clear();
        for (size_t i = 0; i < n; ++i)
        {
            out.emplace_back(randomBitBuffer(r, 40));
        }
    }
    static void enc(Bits& b, const zserio::BitBuffer& v)
    {
        ref::putBitBuffer(b, bufBits(v));
    }
    static bool same(const zserio::BitBuffer& a, const zserio::BitBuffer& b)
    {
        return bufBits(a) == bufBits(b);
    }
    static std::string text(const zserio::BitBuffer& v)
    {
        return bufBits(v).text(40);
    }
};

template <typename T>
struct M<T, std::enable_if_t<std::is_enum_v<T>>>
{
    using Z = typename zserio::EnumTraits<T>::ZserioType;
    static constexpr bool packable = true;
    static constexpr size_t columns = 1;
    static constexpr unsigned implicitBits = 0;
    static std::string name()
    {
        return "enum " + std::string(zserio::EnumTraits<T>::enumName);
    }
    static void gen(vh::Rng& r, zserio::Vector<T>& out, size_t n)
    {
        out.clear();
        const bool constant = r.chance(30);
        T k = zserio::EnumTraits<T>::values[r.below(zserio::EnumTraits<T>::values.size())];
        for (size_t i = 0; i < n; ++i)
        {
            if (!constant)
            {
                k = zserio::EnumTraits<T>::values[r.below(zserio::EnumTraits<T>::values.size())];
            }
            out.push_back(k);
        }
    }
    static i128 num(const T& v)
    {
        return static_cast<i128>(static_cast<std::underlying_type_t<T>>(v));
    }
    static Z z(const T& v)
    {
        return Z(static_cast<typename Z::ValueType>(v));
    }
    static void enc(Bits& b, const T& v)
    {
        M<Z>::enc(b, z(v));
    }
    static bool same(const T& a, const T& b)
    {
        return a == b;
    }
    static std::string text(const T& v)
    {
        return numText(v);
    }
    static void plan(Col* c, const T& v)
    {
        M<Z>::plan(c, z(v));
    }
    static void encPacked(Bits& b, const T& v, Col* c)
    {
        M<Z>::encPacked(b, z(v), c);
    }
};

template <typename T>
struct M<T, std::enable_if_t<zserio::is_bitmask_v<T>>>
{
    using Z = typename T::ZserioType;
    static constexpr bool packable = true;
    static constexpr size_t columns = 1;
    static constexpr unsigned implicitBits = 0;
    static std::string name()
    {
        return "bitmask";
    }
    static void gen(vh::Rng& r, zserio::Vector<T>& out, size_t n)
    {
        out.clear();
        zserio::Vector<Z> raw;
        M<Z>::gen(r, raw, n);
        for (const Z& x : raw)
        {
            out.emplace_back(x);
        }
    }
    static i128 num(const T& v)
    {
        return M<Z>::num(v.getValue());
    }
    static void enc(Bits& b, const T& v)
    {
        M<Z>::enc(b, v.getValue());
    }
    static bool same(const T& a, const T& b)
    {
        return num(a) == num(b);
    }
    static std::string text(const T& v)
    {
        return numText(v);
    }
    static void plan(Col* c, const T& v)
    {
        M<Z>::plan(c, v.getValue());
    }
    static void encPacked(Bits& b, const T& v, Col* c)
    {
        M<Z>::encPacked(b, v.getValue(), c);
    }
};

// reference encodings of arrays --------------------------------------------------------------------------
enum class K
{
    NORMAL,
    IMPLICIT,
    ALIGNED,
    AUTO,
    ALIGNED_AUTO
};
inline const char* kindName(K k)
{
    static const char* n[] = {"normal", "implicit", "aligned", "auto", "aligned-auto"};
    return n[static_cast<int>(k)];
}

// b already holds everything before the array; offsets get the byte positions of aligned elements
template <typename T>
void encArray(Bits& b, K k, const zserio::Vector<T>& v, bool packed, std::vector<uint64_t>* offsets = nullptr,
        std::vector<Col>* colsOut = nullptr)
{
    using Mod = M<T>;
    if (k == K::AUTO || k == K::ALIGNED_AUTO)
    {
        ref::putVar(b, Var::SIZE, static_cast<i128>(v.size()));
    }
    std::vector<Col> cols(Mod::columns);
    if (packed && Mod::packable)
    {
        for (const T& e : v)
        {
            Mod::plan(cols.data(), e);
        }
        for (Col& c : cols)
        {
            c.finish();
        }
    }
    for (const T& e : v)
    {
        if (k == K::ALIGNED || k == K::ALIGNED_AUTO)
        {
            b.align(8);
            if (offsets != nullptr)
            {
                offsets->push_back(b.size() / 8);
            }
        }
        if (packed && Mod::packable)
        {
            Mod::encPacked(b, e, cols.data());
        }
        else
        {
            Mod::enc(b, e);
        }
    }
    if (colsOut != nullptr)
    {
        *colsOut = std::move(cols);
    }
}

// object models --------------------------------------------------------------------------------------------
template <>
struct M<objs::Inner>
{
    using T = objs::Inner;
    static constexpr bool packable = true;
    static constexpr size_t columns = 2;
    static constexpr unsigned implicitBits = 0;
    static std::string name()
    {
        return "object Inner";
    }
    static void gen(vh::Rng& r, zserio::Vector<T>& out, size_t n)
    {
        zserio::Vector<zserio::UInt32> x;
        zserio::Vector<zserio::VarUInt> y;
        zserio::Vector<zserio::Bytes> z;
        M<zserio::UInt32>::gen(r, x, n);
        M<zserio::VarUInt>::gen(r, y, n);
        M<zserio::Bytes>::gen(r, z, n);
        out.clear();
        out.resize(n);
        for (size_t i = 0; i < n; ++i)
        {
            out[i].x = x[i];
            out[i].y = y[i];
            out[i].z = z[i];
        }
    }
    static void enc(Bits& b, const T& v)
    {
        M<zserio::UInt32>::enc(b, v.x);
        M<zserio::VarUInt>::enc(b, v.y);
        M<zserio::Bytes>::enc(b, v.z);
    }
    static bool same(const T& a, const T& b)
    {
        return a == b;
    }
    static std::string text(const T& v)
    {
        return vh::str("{", numText(v.x), ",", numText(v.y), ",", v.z.size(), "}");
    }
    static void plan(Col* c, const T& v)
    {
        M<zserio::UInt32>::plan(c, v.x);
        M<zserio::VarUInt>::plan(c + 1, v.y);
    }
    static void encPacked(Bits& b, const T& v, Col* c)
    {
        M<zserio::UInt32>::encPacked(b, v.x, c);
        M<zserio::VarUInt>::encPacked(b, v.y, c + 1);
        M<zserio::Bytes>::enc(b, v.z);
    }
};

template <>
struct M<objs::PObj>
{
    using T = objs::PObj;
    static constexpr bool packable = true;
    static constexpr size_t columns = 5;
    static constexpr unsigned implicitBits = 0;
    static std::string name()
    {
        return "object PObj";
    }
    static void gen(vh::Rng& r, zserio::Vector<T>& out, size_t n)
    {
        zserio::Vector<zserio::UInt8> a;
        zserio::Vector<zserio::VarInt64> bb;
        zserio::Vector<objs::Inner> in;
        zserio::Vector<zserio::Bool> fl;
        zserio::Vector<zserio::String> s;
        M<zserio::UInt8>::gen(r, a, n);
        M<zserio::VarInt64>::gen(r, bb, n);
        M<objs::Inner>::gen(r, in, n);
        M<zserio::Bool>::gen(r, fl, n);
        M<zserio::String>::gen(r, s, n);
        out.clear();
        out.resize(n);
        for (size_t i = 0; i < n; ++i)
        {
            out[i].a = a[i];
            out[i].b = bb[i];
            out[i].in = in[i];
            out[i].flag = fl[i];
            out[i].s = s[i];
            M<zserio::Int16>::gen(r, out[i].arr, r.below(7));
        }
    }
    static void enc(Bits& b, const T& v)
    {
        M<zserio::UInt8>::enc(b, v.a);
        M<zserio::VarInt64>::enc(b, v.b);
        M<objs::Inner>::enc(b, v.in);
        encArray(b, K::AUTO, v.arr, true);
        M<zserio::String>::enc(b, v.s);
        M<zserio::Bool>::enc(b, v.flag);
    }
    static bool same(const T& a, const T& b)
    {
        return a == b;
    }
    static std::string text(const T& v)
    {
        return vh::str("{", numText(v.a), ",", numText(v.b), ",", M<objs::Inner>::text(v.in), ",", v.arr.size(), "}");
    }
    static void plan(Col* c, const T& v)
    {
        M<zserio::UInt8>::plan(c, v.a);
        M<zserio::VarInt64>::plan(c + 1, v.b);
        M<objs::Inner>::plan(c + 2, v.in);
        M<zserio::Bool>::plan(c + 4, v.flag);
    }
    static void encPacked(Bits& b, const T& v, Col* c)
    {
        M<zserio::UInt8>::encPacked(b, v.a, c);
        M<zserio::VarInt64>::encPacked(b, v.b, c + 1);
        M<objs::Inner>::encPacked(b, v.in, c + 2);
        encArray(b, K::AUTO, v.arr, true);
        M<zserio::String>::enc(b, v.s);
        M<zserio::Bool>::encPacked(b, v.flag, c + 4);
    }
};

template <>
struct M<objs::AObj> : PlainModel<objs::AObj>
{
    using T = objs::AObj;
    static constexpr unsigned implicitBits = 0;
    static std::string name()
    {
        return "object AObj";
    }
    static void gen(vh::Rng& r, zserio::Vector<T>& out, size_t n)
    {
        out.clear();
        out.resize(n);
        for (auto& e : out)
        {
            e.x = static_cast<uint8_t>(r.below(8));
            e.y = static_cast<uint16_t>(r.ubits(16));
            if (r.flip())
            {
                e.o.emplace(r.flip());
            }
        }
    }
    static void enc(Bits& b, const T& v)
    {
        b.put(static_cast<uint8_t>(v.x), 3);
        b.align(16);
        b.put(static_cast<uint16_t>(v.y), 16);
        b.put(v.o.has_value() ? 1 : 0, 1);
        if (v.o.has_value())
        {
            b.put(static_cast<bool>(*v.o) ? 1 : 0, 1);
        }
    }
    static bool same(const T& a, const T& b)
    {
        return a == b;
    }
    static std::string text(const T& v)
    {
        return vh::str("{", numText(v.x), ",", numText(v.y), ",", v.o.has_value(), "}");
    }
};

template <>
struct M<objs::OObj>
{
    using T = objs::OObj;
    static constexpr bool packable = true;
    static constexpr size_t columns = 2;
    static constexpr unsigned implicitBits = 0;
    static std::string name()
    {
        return "object OObj";
    }
    static void gen(vh::Rng& r, zserio::Vector<T>& out, size_t n)
    {
        zserio::Vector<zserio::UInt5> a;
        zserio::Vector<zserio::UInt7> t;
        zserio::Vector<zserio::Bytes> z;
        M<zserio::UInt5>::gen(r, a, n);
        M<zserio::UInt7>::gen(r, t, n);
        M<zserio::Bytes>::gen(r, z, n);
        out.clear();
        out.resize(n);
        for (size_t i = 0; i < n; ++i)
        {
            out[i].lead = a[i];
            out[i].tail = t[i];
            out[i].data = z[i];
            out[i].off = static_cast<uint32_t>(r.ubits(32)); // wrong until initialised
        }
    }
    static void rest(Bits& b, const T& v)
    {
        const size_t dataPos = (b.size() + 32 + 7) / 8;
        b.put(dataPos, 32);
        b.align(8);
        M<zserio::Bytes>::enc(b, v.data);
    }
    static void enc(Bits& b, const T& v)
    {
        M<zserio::UInt5>::enc(b, v.lead);
        rest(b, v);
        M<zserio::UInt7>::enc(b, v.tail);
    }
    static bool same(const T& a, const T& b)
    {
        return a == b && a.off == b.off;
    }
    static std::string text(const T& v)
    {
        return vh::str("{", numText(v.lead), ",off ", numText(v.off), ",", v.data.size(), ",", numText(v.tail), "}");
    }
    static void plan(Col* c, const T& v)
    {
        M<zserio::UInt5>::plan(c, v.lead);
        M<zserio::UInt7>::plan(c + 1, v.tail);
    }
    static void encPacked(Bits& b, const T& v, Col* c)
    {
        M<zserio::UInt5>::encPacked(b, v.lead, c);
        rest(b, v);
        M<zserio::UInt7>::encPacked(b, v.tail, c + 1);
    }
};

// runtime bindings ------------------------------------------------------------------------------------------
// T with the standard ArrayTraits
template <typename T>
struct Plain
{
    using Elem = T;
    using Mod = M<T>;
    using Traits = zserio::ArrayTraits<T>;
    using View = zserio::ArrayView<const T>;
    struct Owner
    {};
    static std::string name()
    {
        return Mod::name();
    }
    View view(const zserio::Vector<T>& v) const
    {
        return View(v);
    }
    template <zserio::detail::ArrayType A>
    void read(zserio::BitStreamReader& r, zserio::Vector<T>& v, size_t n)
    {
        zserio::detail::read<A>(r, v, n);
    }
    template <zserio::detail::ArrayType A>
    void readPacked(zserio::BitStreamReader& r, zserio::Vector<T>& v, size_t n)
    {
        zserio::detail::readPacked<A>(r, v, n);
    }
    void gen(vh::Rng& r, zserio::Vector<T>& v, size_t n)
    {
        Mod::gen(r, v, n);
    }
};

struct DynOwner
{
    uint8_t numBits = 1;
};

template <typename V>
struct DynTraits
{
    using OwnerType = DynOwner;
    using E = zserio::detail::DynIntWrapper<V>;
    static zserio::View<E> at(const DynOwner& o, const E& e, size_t)
    {
        return zserio::View<E>(e, o.numBits);
    }
    static void read(zserio::BitStreamReader& r, const DynOwner& o, E& e, size_t)
    {
        zserio::detail::read(r, e, o.numBits);
    }
    static void read(zserio::detail::DeltaContext& c, zserio::BitStreamReader& r, const DynOwner& o, E& e, size_t)
    {
        zserio::detail::read(c, r, e, o.numBits);
    }
};

// dynamic width: the model needs the width of the array at hand
inline thread_local unsigned g_dynBits = 1;

template <typename V>
struct DynDom
{
    using T = zserio::detail::DynIntWrapper<V>;
    static i128 lo()
    {
        return std::is_signed_v<V> ? -(i128(1) << (g_dynBits - 1)) : 0;
    }
    static i128 hi()
    {
        return (i128(1) << (std::is_signed_v<V> ? g_dynBits - 1 : g_dynBits)) - 1;
    }
    static T make(i128 x)
    {
        return T(static_cast<V>(x));
    }
    static i128 num(const T& v)
    {
        return static_cast<i128>(static_cast<V>(v));
    }
    static void encode(Bits& b, i128 x)
    {
        ref::putInt(b, x, g_dynBits);
    }
};
template <typename V>
struct M<zserio::detail::DynIntWrapper<V>> : IntModel<zserio::detail::DynIntWrapper<V>, DynDom<V>>
{
    static constexpr unsigned implicitBits = 0;
    static std::string name()
    {
        return vh::str(std::is_signed_v<V> ? "dynint" : "dynuint", sizeof(V) * 8);
    }
};

template <typename V>
struct Dyn
{
    using Elem = zserio::detail::DynIntWrapper<V>;
    using Mod = M<Elem>;
    using Traits = DynTraits<V>;
    using View = zserio::ArrayView<const Elem, Traits>;
    DynOwner owner;
    static std::string name()
    {
        return Mod::name();
    }
    View view(const zserio::Vector<Elem>& v) const
    {
        return View(v, owner);
    }
    template <zserio::detail::ArrayType A>
    void read(zserio::BitStreamReader& r, zserio::Vector<Elem>& v, size_t n)
    {
        zserio::detail::readWithTraits<A, Traits>(r, v, owner, n);
    }
    template <zserio::detail::ArrayType A>
    void readPacked(zserio::BitStreamReader& r, zserio::Vector<Elem>& v, size_t n)
    {
        zserio::detail::readPackedWithTraits<A, Traits>(r, v, owner, n);
    }
    void gen(vh::Rng& r, zserio::Vector<Elem>& v, size_t n)
    {
        owner.numBits = static_cast<uint8_t>(1 + r.below(sizeof(V) * 8));
        if (r.chance(20))
        {
            owner.numBits = sizeof(V) * 8;
        }
        g_dynBits = owner.numBits;
        Mod::gen(r, v, n);
    }
};

using zserio::detail::ArrayType;

template <typename F>
void withKind(K k, F&& f)
{
    switch (k)
    {
    case K::NORMAL:
        f(std::integral_constant<ArrayType, ArrayType::NORMAL>());
        break;
    case K::ALIGNED:
        f(std::integral_constant<ArrayType, ArrayType::ALIGNED>());
        break;
    case K::AUTO:
        f(std::integral_constant<ArrayType, ArrayType::AUTO>());
        break;
    default:
        f(std::integral_constant<ArrayType, ArrayType::ALIGNED_AUTO>());
        break;
    }
}

inline size_t randomLen(vh::Rng& r, bool heavy, bool longOnes)
{
    if (r.chance(6) && !heavy)
    {
        return 126 + r.below(5);
    }
    if (longOnes && !heavy && r.below(300) == 0)
    {
        // around the limits of the length field and of 16 bits
        return r.chance(60) ? 16382 + r.below(5) : 65530 + r.below(2000);
    }
    return r.chance(70) ? r.below(9) : r.below(heavy ? 20 : 60);
}

// registry of per-type test bodies, filled by the translation units of a check
using Body = void (*)(vh::Case&);
std::vector<std::pair<std::string, Body>>& bodies();
struct RegBody
{
    RegBody(std::string n, Body b)
    {
        bodies().emplace_back(std::move(n), b);
    }
};

// records offsets reported by initializeOffsets
struct OffsetLog
{
    mutable std::vector<std::pair<size_t, uint64_t>>* log;
    void setOffset(size_t i, zserio::BitSize byteOffset) const
    {
        log->emplace_back(i, byteOffset);
    }
};

template <typename T>
std::string seqText(const zserio::Vector<T>& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size() && i < 40; ++i)
    {
        s += M<T>::text(v[i]);
        s += ' ';
    }
    return s + vh::str("]x", v.size());
}

template <typename T>
bool sameSeq(const zserio::Vector<T>& a, const zserio::Vector<T>& b)
{
    if (a.size() != b.size())
    {
        return false;
    }
    for (size_t i = 0; i < a.size(); ++i)
    {
        if (!M<T>::same(a[i], b[i]))
        {
            return false;
        }
    }
    return true;
}

} // namespace arr
