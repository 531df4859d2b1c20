// C33: enumerations and bitmasks of every underlying type, and the built-in operators numbits, isset and valueof
#include <limits>
#include <set>

#include "test_object/std_allocator/CreatorBitmask.h"
#include "test_object/std_allocator/CreatorEnum.h"
#include "test_object/std_allocator/CreatorUnsignedEnum.h"
#include "test_object/std_allocator/ReflectableBitmask.h"
#include "test_object/std_allocator/ReflectableEnum.h"
#include "test_object/std_allocator/WalkerBitmask.h"
#include "vh.h"
#include "zserio/ArrayView.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/Bitmasks.h"
#include "zserio/BuiltInOperators.h"
#include "zserio/DeltaContext.h"
#include "zserio/Enums.h"
#include "zserio/Types.h"
#include "zserio/View.h"

// enumerations in the generated style
#define C33_ENUM(NAME, ZTYPE, A, B, C, D) \
    enum class NAME : ::zserio::ZTYPE::ValueType \
    { \
        FIRST = (A), \
        SECOND = (B), \
        first = (C), \
        THIRD_ITEM = (D) \
    }; \
    namespace zserio \
    { \
    template <> \
    struct EnumTraits<::NAME> \
    { \
        static constexpr ::std::array<::std::string_view, 4> names = {{"FIRST", "SECOND", "first", "THIRD_ITEM"}}; \
        static constexpr ::std::array<::NAME, 4> values = {{::NAME::FIRST, ::NAME::SECOND, ::NAME::first, ::NAME::THIRD_ITEM}}; \
        static constexpr ::std::string_view enumName = #NAME; \
        using ZserioType = ::zserio::ZTYPE; \
    }; \
    template <> \
    size_t enumToOrdinal<::NAME>(::NAME value) \
    { \
        switch (value) \
        { \
        case ::NAME::FIRST: \
            return 0; \
        case ::NAME::SECOND: \
            return 1; \
        case ::NAME::first: \
            return 2; \
        case ::NAME::THIRD_ITEM: \
            return 3; \
        default: \
            throw ::zserio::CppRuntimeException("Unknown value for enumeration " #NAME ": ") \
                    << static_cast<typename ::std::underlying_type_t<::NAME>>(value) << "!"; \
        } \
    } \
    template <> \
    ::NAME valueToEnum<::NAME>(::zserio::ZTYPE rawValue) \
    { \
        switch (rawValue) \
        { \
        case (A): \
        case (B): \
        case (C): \
        case (D): \
            return static_cast<::NAME>(static_cast<::std::underlying_type_t<::NAME>>(rawValue)); \
        default: \
            throw ::zserio::CppRuntimeException("Unknown value for enumeration " #NAME ": ") << rawValue << "!"; \
        } \
    } \
    }

C33_ENUM(EUInt8, UInt8, 0, 255, 128, 7)
C33_ENUM(EInt8, Int8, -128, 127, 0, -1)
C33_ENUM(EUInt16, UInt16, 0, 65535, 256, 255)
C33_ENUM(EInt16, Int16, -32768, 32767, 255, -256)
C33_ENUM(EUInt32, UInt32, 0, 0xffffffffU, 0x80000000U, 65536)
C33_ENUM(EInt32, Int32, INT32_MIN, INT32_MAX, 0, -65537)
C33_ENUM(EUInt64, UInt64, 0, UINT64_MAX, UINT64_C(0x8000000000000000), UINT64_C(0x100000000))
C33_ENUM(EInt64, Int64, INT64_MIN, INT64_MAX, -1, INT64_C(0x100000000))
C33_ENUM(EUInt1, UInt3, 0, 1, 7, 4)
C33_ENUM(EInt5, Int5, -16, 15, 0, -1)
C33_ENUM(EUInt33, UInt33, 0, UINT64_C(0x1ffffffff), UINT64_C(0x100000000), UINT64_C(0xffffffff))
C33_ENUM(EInt57, Int57, -(INT64_C(1) << 56), (INT64_C(1) << 56) - 1, 0, -1)
C33_ENUM(EVarInt16, VarInt16, -16383, 16383, 63, -64)
C33_ENUM(EVarInt, VarInt, INT64_MIN, INT64_MAX, 0, -64)
C33_ENUM(EVarUInt16, VarUInt16, 0, 32767, 127, 128)
C33_ENUM(EVarUInt, VarUInt, 0, UINT64_MAX, 127, 128)
C33_ENUM(EVarUInt32, VarUInt32, 0, (1U << 29U) - 1, 16383, 16384)
C33_ENUM(EVarUInt64, VarUInt64, 0, (UINT64_C(1) << 57U) - 1, 127, 128)
C33_ENUM(EVarSize, VarSize, 0, 2147483647U, 127, 128)

namespace
{

using i128 = __int128;
std::string num(i128 x)
{
    const bool neg = x < 0;
    std::string s;
    do
    {
        const int d = static_cast<int>(x % 10);
        s.insert(s.begin(), static_cast<char>('0' + (d < 0 ? -d : d)));
        x /= 10;
    } while (x != 0);
    return neg ? "-" + s : s;
}

// a bitmask in the generated style
template <typename Z>
struct Mask
{
    using ZserioType = Z;
    constexpr Mask() noexcept :
            m_value(0)
    {}
    constexpr explicit Mask(Z value) noexcept :
            m_value(value)
    {}
    constexpr explicit operator Z() const
    {
        return m_value;
    }
    constexpr Z getValue() const
    {
        return m_value;
    }
    friend constexpr Mask operator&(const Mask& a, const Mask& b)
    {
        return Mask(static_cast<typename Z::ValueType>(a.getValue() & b.getValue()));
    }
    friend constexpr bool operator==(const Mask& a, const Mask& b)
    {
        return a.getValue() == b.getValue();
    }
    Z m_value;
};

template <typename Z>
i128 low()
{
    return static_cast<i128>(zserio::NumericLimits<Z>::min());
}
template <typename Z>
i128 high()
{
    return static_cast<i128>(zserio::NumericLimits<Z>::max());
}
template <typename V>
V anyRaw(vh::Rng& r, const std::vector<V>& near)
{
    switch (r.below(4))
    {
    case 0:
        return near[r.below(near.size())];
    case 1:
        return static_cast<V>(static_cast<uint64_t>(near[r.below(near.size())]) + r.below(5) - 2);
    case 2:
        return static_cast<V>(UINT64_C(1) << r.below(64));
    default:
        return static_cast<V>(r.next());
    }
}

template <typename F>
bool refused(F f)
{
    try
    {
        f();
    }
    catch (const zserio::CppRuntimeException&)
    {
        return true;
    }
    return false;
}

// what the stream holds must be what the underlying type gives
template <typename T, typename Z>
void stream(vh::Case& c, T value, Z raw, const std::string& what)
{
    uint8_t a[16] = {};
    uint8_t b[16] = {};
    const size_t shift = c.rng.below(9);
    zserio::BitStreamWriter wa(a, sizeof a);
    zserio::BitStreamWriter wb(b, sizeof b);
    wa.setBitPosition(shift);
    wb.setBitPosition(shift);
    zserio::detail::write(wa, value);
    zserio::detail::write(wb, raw);
    VH_EQ(c, wa.getBitPosition(), wb.getBitPosition(), "written-size", what);
    VH_CHECK(c, std::equal(a, a + sizeof a, b), "written-bits", what);
    VH_EQ(c, zserio::detail::bitSizeOf(value, shift), wa.getBitPosition() - shift, "bit-size", what);
    zserio::BitStreamReader reader(a, sizeof a);
    reader.setBitPosition(shift);
    T back{};
    zserio::detail::read(reader, back);
    VH_CHECK(c, back == value, "read", what);
    VH_EQ(c, reader.getBitPosition(), wa.getBitPosition(), "read-size", what);
    c.count("streamed");
}

// a packed sequence must be what the underlying type gives
template <typename Z, typename T, typename CONV>
void packed(vh::Case& c, const std::vector<T>& values, CONV conv, const char* name)
{
    std::vector<uint8_t> a(values.size() * 12 + 16);
    std::vector<uint8_t> b(a.size());
    zserio::BitStreamWriter wa(a.data(), a.size());
    zserio::BitStreamWriter wb(b.data(), b.size());
    zserio::detail::DeltaContext ca;
    zserio::detail::DeltaContext cb;
    for (const T& v : values)
    {
        zserio::detail::initContext(ca, v);
        zserio::detail::initContext(cb, Z(conv(v)));
    }
    zserio::detail::DeltaContext sa = ca;
    zserio::detail::DeltaContext sb = cb;
    for (const T& v : values)
    {
        const size_t before = wa.getBitPosition();
        const size_t size = zserio::detail::bitSizeOf(sa, v, 0);
        VH_EQ(c, size, zserio::detail::bitSizeOf(sb, Z(conv(v)), 0), "packed-bit-size", name);
        zserio::detail::write(ca, wa, v);
        zserio::detail::write(cb, wb, Z(conv(v)));
        VH_EQ(c, wa.getBitPosition() - before, size, "packed-written-size", name);
    }
    VH_EQ(c, wa.getBitPosition(), wb.getBitPosition(), "packed-size", name);
    VH_CHECK(c, a == b, "packed-bits", name);
    zserio::BitStreamReader reader(a.data(), a.size());
    zserio::detail::DeltaContext cr;
    for (const T& v : values)
    {
        T back{};
        zserio::detail::read(cr, reader, back);
        VH_CHECK(c, back == v, "packed-read", name);
    }
    VH_EQ(c, reader.getBitPosition(), wa.getBitPosition(), "packed-read-size", name);
    c.count("packed_sequences");
}

template <typename E>
struct Items
{
    using Traits = zserio::EnumTraits<E>;
    using Z = typename Traits::ZserioType;
    using V = typename Z::ValueType;
    using U = std::underlying_type_t<E>;

    static void run(vh::Case& c, const char* name)
    {
        vh::Rng& r = c.rng;
        std::vector<V> raws;
        for (const E e : Traits::values)
        {
            raws.push_back(static_cast<V>(static_cast<U>(e)));
        }
        // every item: name, value and ordinal lead to each other
        for (size_t i = 0; i < raws.size(); ++i)
        {
            const E e = Traits::values[i];
            VH_EQ(c, zserio::enumToOrdinal(e), i, "ordinal", name);
            VH_CHECK(c, zserio::enumToString(e) == Traits::names[i], "to-string", name, " ", i);
            VH_CHECK(c, zserio::stringToEnum<E>(Traits::names[i]) == e, "from-string", name, " ", i);
            VH_CHECK(c, static_cast<V>(zserio::enumToValue(e)) == raws[i], "to-value", name, " ", i);
            VH_CHECK(c, static_cast<V>(zserio::builtin::valueOf(e)) == raws[i], "valueof", name, " ", i);
            VH_CHECK(c, zserio::valueToEnum<E>(Z(raws[i])) == e, "from-value", name, " ", i);
            VH_CHECK(c, !refused([&] { zserio::detail::validate(e, "item"); }), "item-valid", name, " ", i);
            stream(c, e, Z(raws[i]), name);
            zserio::CppRuntimeException x("[");
            x << e << "]";
            VH_CHECK(c, std::string(x.what()) == "[" + std::string(Traits::names[i]) + "]", "in-message", x.what());
        }
        // names which are no items
        for (size_t k = 0; k < 12; ++k)
        {
            std::string s(Traits::names[r.below(raws.size())]);
            switch (r.below(7))
            {
            case 6: // "FIRST" and "first" are different items
                for (char& ch : s)
                {
                    ch = static_cast<char>(ch ^ (ch == '_' || (ch >= '0' && ch <= '9') ? 0 : 0x20));
                }
                break;
            case 0:
                s.pop_back();
                break;
            case 1:
                s += static_cast<char>(r.below(256));
                break;
            case 2:
                s[r.below(s.size())] ^= 0x20;
                break;
            case 3:
                s.insert(s.begin(), ' ');
                break;
            case 4:
                s += std::string(1, '\0') + "x";
                break;
            default:
                s.clear();
                break;
            }
            const bool known = std::find(Traits::names.begin(), Traits::names.end(), s) != Traits::names.end();
            E got{};
            const bool no = refused([&] { got = zserio::stringToEnum<E>(s); });
            VH_CHECK(c, no == !known, "unknown-name", name, " '", s, "'");
            if (known && !no)
            {
                VH_CHECK(c, zserio::enumToString(got) == s, "from-string", name, " '", s, "'");
            }
            c.count(no ? "names_refused" : "names_found");
        }
        // raw values
        std::vector<V> tries;
        if constexpr (sizeof(V) == 1)
        {
            for (int i = 0; i < 256; ++i)
            {
                tries.push_back(static_cast<V>(i));
            }
        }
        else
        {
            for (int i = 0; i < 40; ++i)
            {
                tries.push_back(anyRaw<V>(r, raws));
            }
        }
        for (const V v : tries)
        {
            const auto found = std::find(raws.begin(), raws.end(), v);
            E got{};
            const bool no = refused([&] { got = zserio::valueToEnum<E>(Z(v)); });
            VH_CHECK(c, no == (found == raws.end()), "unknown-value", name, " ", num(v));
            if (!no)
            {
                VH_CHECK(c, static_cast<V>(static_cast<U>(got)) == v, "from-value", name, " ", num(v));
            }
            else
            {
                VH_CHECK(c, refused([&] { (void)zserio::enumToString(static_cast<E>(v)); }), "string-of-unknown", name, " ", num(v));
            }
            c.count(no ? "values_refused" : "values_found");
            if (static_cast<i128>(v) < low<Z>() || static_cast<i128>(v) > high<Z>())
            {
                continue;
            }
            // the same value in a stream
            uint8_t buffer[16] = {};
            zserio::BitStreamWriter writer(buffer, sizeof buffer);
            const size_t shift = r.below(9);
            writer.setBitPosition(shift);
            zserio::detail::write(writer, Z(v));
            zserio::BitStreamReader reader(buffer, sizeof buffer);
            reader.setBitPosition(shift);
            E read{};
            const bool noRead = refused([&] { zserio::detail::read(reader, read); });
            VH_CHECK(c, noRead == no, "unknown-value-read", name, " ", num(v));
            VH_CHECK(c, no || read == got, "read", name, " ", num(v));
        }
        // packed
        std::vector<E> seq(1 + r.below(r.chance(25) ? 40 : 5));
        for (E& e : seq)
        {
            e = Traits::values[r.below(r.chance(50) ? raws.size() : 2)];
        }
        packed<Z>(c, seq, [](E e) { return static_cast<V>(static_cast<U>(e)); }, name);
        c.distinct(vh::str(name, " ", c.idx));
    }
};

// any arithmetic on C++ values
template <typename M, bool OPERATORS = false>
void mask(vh::Case& c, const char* name)
{
    using Z = typename M::ZserioType;
    using V = typename Z::ValueType;
    vh::Rng& r = c.rng;
    const V top = zserio::NumericLimits<Z>::max();
    for (int k = 0; k < 20; ++k)
    {
        const V a = static_cast<V>((r.chance(33) ? r.next() & r.next() : r.chance(50) ? UINT64_C(1) << r.below(64) : r.next()) & top);
        const V b = static_cast<V>((r.chance(33) ? r.next() & a : r.chance(50) ? UINT64_C(1) << r.below(64) : r.next()) & top);
        const M ma{Z(a)};
        const M mb{Z(b)};
        VH_CHECK(c, static_cast<V>(ma.getValue()) == a, "mask-value", name);
        VH_CHECK(c, static_cast<V>(zserio::builtin::valueOf(ma)) == a, "mask-valueof", name, " ", num(a));
        bool all = true; // every bit of b is in a
        for (unsigned bit = 0; bit < sizeof(V) * 8; ++bit)
        {
            all = all && (!((static_cast<uint64_t>(b) >> bit) & 1U) || ((static_cast<uint64_t>(a) >> bit) & 1U));
        }
        VH_EQ(c, zserio::builtin::isSet(ma, mb), all, "isset", name, " ", num(a), " ", num(b));
        VH_EQ(c, zserio::builtin::isSet(ma, M{Z(V(0))}), true, "isset-none", name, " ", num(a));
        VH_EQ(c, zserio::builtin::isSet(a, b), all, "isset-number", name, " ", num(a), " ", num(b));
        c.count(all ? "set" : "not_set");
        VH_CHECK(c, !refused([&] { zserio::detail::validate(ma, "mask"); }), "mask-valid", name, " ", num(a));
        if constexpr (!std::is_same_v<V, bool>)
        {
            // values outside of the underlying type are refused
            const V raw = static_cast<V>(r.next());
            const bool bad = static_cast<i128>(raw) > high<Z>() || static_cast<i128>(raw) < low<Z>();
            VH_CHECK(c, refused([&] { zserio::detail::validate(M{Z(raw)}, "mask"); }) == bad, "mask-range", name, " ", num(raw));
            c.count(bad ? "masks_refused" : "masks_valid");
        }
        stream(c, ma, Z(a), name);
        zserio::CppRuntimeException x("[");
        x << ma << "]";
        VH_CHECK(c, std::string(x.what()) == "[" + num(a) + "]", "in-message", name, x.what());
        if constexpr (OPERATORS)
        {
            const V full = static_cast<V>(~V(0));
            VH_CHECK(c, static_cast<V>((ma | mb).getValue()) == static_cast<V>(a | b), "or", name);
            VH_CHECK(c, static_cast<V>((ma & mb).getValue()) == static_cast<V>(a & b), "and", name);
            VH_CHECK(c, static_cast<V>((ma ^ mb).getValue()) == static_cast<V>(a ^ b), "xor", name);
            VH_CHECK(c, static_cast<V>((~ma).getValue()) == static_cast<V>(a ^ full), "not", name);
            M mo = ma;
            mo |= mb;
            VH_CHECK(c, mo == (ma | mb), "or-assign", name);
            mo = ma;
            mo &= mb;
            VH_CHECK(c, mo == (ma & mb), "and-assign", name);
            mo = ma;
            mo ^= mb;
            VH_CHECK(c, mo == (ma ^ mb), "xor-assign", name);
            VH_CHECK(c, (ma == mb) == (a == b) && (ma != mb) == (a != b) && (ma < mb) == (a < b) && (ma > mb) == (a > b) && (ma <= mb) == (a <= b) && (ma >= mb) == (a >= b),
                    "order", name, " ", num(a), " ", num(b));
            const auto text = ma.toString();
            VH_CHECK(c, text.substr(0, text.find('[')) == num(a).c_str(), "text", text.c_str());
            c.count("operators");
        }
    }
    std::vector<M> seq;
    V v = static_cast<V>(r.next() & top);
    for (size_t i = 1 + r.below(30); i > 0; --i)
    {
        v = r.chance(12) ? static_cast<V>(r.next() & top) : static_cast<V>((v ^ r.below(4)) & top);
        seq.push_back(M{Z(v)});
    }
    packed<Z>(c, seq, [](const M& m) { return static_cast<V>(m.getValue()); }, name);
    c.distinct(vh::str(name, " ", c.idx));
}

unsigned bitsFor(uint64_t n)
{
    // the smallest width whose codes suffice for n values, at least one when there are any
    if (n == 0)
    {
        return 0;
    }
    unsigned w = 1;
    while (w < 64 && (static_cast<unsigned __int128>(1) << w) < n)
    {
        ++w;
    }
    return w;
}

} // namespace

using namespace test_object::std_allocator;

VH_SECTION(enums, 1600, 60000)
{
#define C33_E(T) Items<T>::run(c, #T)
    switch (c.idx % 22)
    {
    case 0: C33_E(EUInt8); break;
    case 1: C33_E(EInt8); break;
    case 2: C33_E(EUInt16); break;
    case 3: C33_E(EInt16); break;
    case 4: C33_E(EUInt32); break;
    case 5: C33_E(EInt32); break;
    case 6: C33_E(EUInt64); break;
    case 7: C33_E(EInt64); break;
    case 8: C33_E(EUInt1); break;
    case 9: C33_E(EInt5); break;
    case 10: C33_E(EUInt33); break;
    case 11: C33_E(EInt57); break;
    case 12: C33_E(EVarInt16); break;
    case 13: C33_E(EVarInt); break;
    case 14: C33_E(EVarUInt16); break;
    case 15: C33_E(EVarUInt); break;
    case 16: C33_E(EVarUInt32); break;
    case 17: C33_E(EVarUInt64); break;
    case 18: C33_E(EVarSize); break;
    case 19: C33_E(CreatorEnum); break;
    case 20: C33_E(CreatorUnsignedEnum); break;
    default: C33_E(ReflectableEnum); break;
    }
}

VH_SECTION(masks, 1600, 60000)
{
#define C33_M(T) mask<Mask<zserio::T>>(c, #T)
    switch (c.idx % 16)
    {
    case 0: C33_M(UInt8); break;
    case 1: C33_M(UInt16); break;
    case 2: C33_M(UInt32); break;
    case 3: C33_M(UInt64); break;
    case 4: C33_M(UInt1); break;
    case 5: C33_M(UInt7); break;
    case 6: C33_M(UInt13); break;
    case 7: C33_M(UInt31); break;
    case 8: C33_M(UInt33); break;
    case 9: C33_M(UInt57); break;
    case 10: C33_M(UInt63); break;
    case 11: C33_M(VarUInt); break;
    case 12: C33_M(VarUInt16); break;
    case 13: mask<CreatorBitmask, true>(c, "CreatorBitmask"); break;
    case 14: mask<ReflectableBitmask, true>(c, "ReflectableBitmask"); break;
    default: mask<WalkerBitmask, true>(c, "WalkerBitmask"); break;
    }
}

VH_SECTION(numbits, 800, 8000)
{
    vh::Rng& r = c.rng;
    std::vector<uint64_t> ns;
    if (c.idx < 70)
    {
        // both sides of every power of two
        const unsigned k = static_cast<unsigned>(c.idx % 65);
        const uint64_t p = k == 64 ? 0 : UINT64_C(1) << k;
        for (uint64_t d = 0; d < 5; ++d)
        {
            ns.push_back(p + d);
            ns.push_back(p - d);
        }
    }
    else
    {
        for (uint64_t i = 0; i < 200; ++i)
        {
            ns.push_back((c.idx - 70) * 200 + i); // all small values
        }
        for (int i = 0; i < 50; ++i)
        {
            ns.push_back(r.ubits(1 + static_cast<unsigned>(r.below(64))));
        }
    }
    for (const uint64_t n : ns)
    {
        VH_EQ(c, static_cast<unsigned>(zserio::builtin::numBits(n)), bitsFor(n), "numbits", n);
        c.count("widths");
    }
    c.distinct(ns.front());
}
