// Numeric domains: published limits, validation and rejection against bounds computed with 128-bit integers.
#include <sys/stat.h>
#include <unistd.h>

#include "arr.h"
#include "tobj_std.h"
#include "test_object/std_allocator/CreatorUnsignedEnum.h"
#include "zserio/ChoiceCaseException.h"
#include "zserio/MissedOptionalException.h"
#include "zserio/UnexpectedOptionalException.h"
#include "zserio/UnionCaseException.h"
#include "zserio/BitFieldUtil.h"
#include "zserio/DataView.h"
#include "zserio/SerializeUtil.h"

using ref::i128;
using zserio::BitSize;

namespace
{

i128 lowBound(unsigned bits, bool sign)
{
    return sign ? -(i128(1) << (bits - 1)) : 0;
}
i128 highBound(unsigned bits, bool sign)
{
    return sign ? (i128(1) << (bits - 1)) - 1 : (i128(1) << bits) - 1;
}
std::string num(i128 v)
{
    if (v == 0)
    {
        return "0";
    }
    const bool neg = v < 0;
    unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
    std::string s;
    while (u != 0)
    {
        s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
        u /= 10;
    }
    return neg ? "-" + s : s;
}

enum Outcome
{
    ACCEPTED,
    OUT_OF_RANGE,
    OTHER_RUNTIME,
    FOREIGN
};
template <typename F>
Outcome outcome(F&& f, std::string* what = nullptr)
{
    try
    {
        f();
        return ACCEPTED;
    }
    catch (const zserio::OutOfRangeException& e)
    {
        if (what != nullptr)
        {
            *what = e.what();
        }
        return OUT_OF_RANGE;
    }
    catch (const zserio::CppRuntimeException& e)
    {
        if (what != nullptr)
        {
            *what = e.what();
        }
        return OTHER_RUNTIME;
    }
    catch (const std::exception& e)
    {
        if (what != nullptr)
        {
            *what = e.what();
        }
        return FOREIGN;
    }
}

template <typename V>
void candidates(vh::Case& c, i128 lo, i128 hi, std::vector<V>& out)
{
    const i128 vmin = static_cast<i128>(std::numeric_limits<V>::min());
    const i128 vmax = static_cast<i128>(std::numeric_limits<V>::max());
    vh::Pause p;
    const auto add = [&](i128 v) {
        if (v >= vmin && v <= vmax)
        {
            out.push_back(static_cast<V>(v));
        }
    };
    for (int d = -3; d <= 3; ++d)
    {
        add(lo + d);
        add(hi + d);
        add(i128(d));
        add(vmin + d);
        add(vmax + d);
        add(-hi + d);
        add(2 * hi + d);
        add((i128(1) << 32) + d);
        add((i128(1) << 31) + d);
        add((i128(1) << 62) + d);
    }
    for (unsigned k = 0; k < 64; ++k)
    {
        add(i128(1) << k);
        add(-(i128(1) << k));
        add((i128(1) << k) - 1);
    }
    for (int k = 0; k < 16; ++k)
    {
        add(static_cast<i128>(static_cast<V>(c.rng.next())));
        add(lo + static_cast<i128>(c.rng.next()) % (hi - lo + 1));
    }
}

// validation, checked conversions and the writer agree with the domain; a rejected value leaves no bits behind
template <typename T>
void checkValue(vh::Case& c, typename T::ValueType v, i128 lo, i128 hi, const std::string& type, bool writable)
{
    using V = typename T::ValueType;
    const bool ok = static_cast<i128>(v) >= lo && static_cast<i128>(v) <= hi;
    const Outcome want = ok ? ACCEPTED : OUT_OF_RANGE;
    const std::string what = vh::str(type, " value ", num(static_cast<i128>(v)), " in <", num(lo), ", ", num(hi), ">");
    std::string message;
    VH_EQ(c, static_cast<int>(outcome([&]() { zserio::detail::validate(T(v), "'some.field'"); }, &message)),
            static_cast<int>(want), "validate", what);
    if (!ok)
    {
        c.check(message.find("'" + num(static_cast<i128>(v)) + "'") != std::string::npos &&
                        message.find("'some.field'") != std::string::npos && message.find(num(hi)) != std::string::npos,
                "message", what + ": " + message);
        c.count("rejected");
    }
    else
    {
        c.count("accepted");
    }
    V got{};
    VH_EQ(c, static_cast<int>(outcome([&]() { got = zserio::fromCheckedValue<T>(v); })), static_cast<int>(want),
            "fromCheckedValue", what);
    if (ok)
    {
        VH_CHECK(c, got == v, "fromCheckedValue-result", what);
    }
    got = V{};
    VH_EQ(c, static_cast<int>(outcome([&]() { got = zserio::toCheckedValue(T(v)); })), static_cast<int>(want),
            "toCheckedValue", what);
    if (ok)
    {
        VH_CHECK(c, got == v, "toCheckedValue-result", what);
    }
    if (writable)
    {
        std::array<uint8_t, 24> buf{};
        zserio::BitStreamWriter w(buf.data(), buf.size() * 8, zserio::BitsTag());
        const unsigned pos = static_cast<unsigned>(c.rng.below(8));
        w.setBitPosition(pos);
        const Outcome o = outcome([&]() { zserio::detail::write(w, T(v)); });
        VH_CHECK(c, ok ? o == ACCEPTED : (o == OUT_OF_RANGE || o == OTHER_RUNTIME), "write", what);
        if (!ok)
        {
            VH_EQ(c, static_cast<unsigned>(w.getBitPosition()), pos, "rejected-write-moved", what);
            c.check(std::all_of(buf.begin(), buf.end(), [](uint8_t b) { return b == 0; }), "rejected-write-stored", what);
        }
        else
        {
            VH_EQ(c, static_cast<size_t>(w.getBitPosition() - pos), static_cast<size_t>(zserio::detail::bitSizeOf(T(v))),
                    "written-size", what);
            zserio::BitStreamReader r(buf.data(), buf.size() * 8, zserio::BitsTag());
            r.setBitPosition(pos);
            T back{};
            zserio::detail::read(r, back);
            VH_CHECK(c, static_cast<V>(back) == v, "read-back", what);
        }
    }
}

template <typename T>
void checkDomain(vh::Case& c, i128 lo, i128 hi, const std::string& type)
{
    using V = typename T::ValueType;
    c.check(static_cast<i128>(static_cast<V>(zserio::NumericLimits<T>::min())) == lo, "min",
            type + " " + num(static_cast<i128>(static_cast<V>(zserio::NumericLimits<T>::min()))) + " expected " + num(lo));
    c.check(static_cast<i128>(static_cast<V>(zserio::NumericLimits<T>::max())) == hi, "max",
            type + " " + num(static_cast<i128>(static_cast<V>(zserio::NumericLimits<T>::max()))) + " expected " + num(hi));
    if (sizeof(V) <= 1 || (sizeof(V) == 2 && (c.thorough || c.idx < 130)))
    {
        for (i128 v = static_cast<i128>(std::numeric_limits<V>::min()); v <= static_cast<i128>(std::numeric_limits<V>::max());
                v += sizeof(V) == 2 && !c.thorough ? 1 + static_cast<i128>(c.rng.below(100)) : 1)
        {
            checkValue<T>(c, static_cast<V>(v), lo, hi, type, true);
        }
    }
    vh::Pause p;
    std::vector<V> vals;
    candidates<V>(c, lo, hi, vals);
    for (const V& v : vals)
    {
        checkValue<T>(c, v, lo, hi, type, true);
    }
    c.distinct(vh::mix(vh::hashStr(type), c.idx));
    c.count("domains");
}

template <typename T, typename = void>
struct HasBits : std::false_type
{};

template <size_t... I>
void fixedDomain(vh::Case& c, size_t k, std::index_sequence<I...>)
{
    const auto one = [&](auto b) {
        constexpr size_t B = decltype(b)::value;
        if (k == B)
        {
            checkDomain<zserio::Int<B>>(c, lowBound(B, true), highBound(B, true), vh::str("int:", B));
            checkDomain<zserio::UInt<B>>(c, lowBound(B, false), highBound(B, false), vh::str("bit:", B));
        }
    };
    (one(std::integral_constant<size_t, I + 1>()), ...);
}

template <typename T>
void dynDomain(vh::Case& c, unsigned bits, const char* name)
{
    using V = typename T::ValueType;
    constexpr bool sign = std::is_signed_v<V>;
    const unsigned width = sizeof(V) * 8;
    const std::string type = vh::str(name, ":", bits);
    const auto nb = static_cast<BitSize>(bits);
    vh::Pause pause;
    std::vector<V> vals;
    if (bits < 1 || bits > width)
    {
        VH_EQ(c, static_cast<int>(outcome([&]() { (void)zserio::NumericLimits<T>::max(nb); })),
                static_cast<int>(OUT_OF_RANGE), "dyn-width-max", type);
        if (sign)
        {
            VH_EQ(c, static_cast<int>(outcome([&]() { (void)zserio::NumericLimits<T>::min(nb); })),
                    static_cast<int>(OUT_OF_RANGE), "dyn-width-min", type);
        }
        candidates<V>(c, 0, 100, vals);
        for (const V& v : vals)
        {
            VH_EQ(c, static_cast<int>(outcome([&]() { zserio::detail::validate(T(v), nb, "f"); })),
                    static_cast<int>(OUT_OF_RANGE), "dyn-width-validate", type);
            if (bits > 255)
            {
                continue; // views keep the width in a byte
            }
            const zserio::View<T> view(T(v), static_cast<uint8_t>(nb));
            VH_CHECK(c, outcome([&]() { zserio::detail::validate(view, "f"); }) == OUT_OF_RANGE, "dyn-view-validate", type);
        }
        c.count("invalid_widths");
        return;
    }
    const i128 lo = lowBound(bits, sign);
    const i128 hi = highBound(bits, sign);
    c.check(static_cast<i128>(static_cast<V>(zserio::NumericLimits<T>::min(nb))) == lo, "dyn-min", type);
    c.check(static_cast<i128>(static_cast<V>(zserio::NumericLimits<T>::max(nb))) == hi, "dyn-max", type);
    candidates<V>(c, lo, hi, vals);
    if (sizeof(V) == 1)
    {
        for (int v = std::numeric_limits<V>::min(); v <= std::numeric_limits<V>::max(); ++v)
        {
            vals.push_back(static_cast<V>(v));
        }
    }
    for (const V& v : vals)
    {
        const bool ok = static_cast<i128>(v) >= lo && static_cast<i128>(v) <= hi;
        const Outcome want = ok ? ACCEPTED : OUT_OF_RANGE;
        const std::string what = vh::str(type, " value ", num(static_cast<i128>(v)));
        std::string message;
        VH_EQ(c, static_cast<int>(outcome([&]() { zserio::detail::validate(T(v), nb, "'some.field'"); }, &message)),
                static_cast<int>(want), "dyn-validate", what);
        if (!ok)
        {
            c.check(message.find("'" + num(static_cast<i128>(v)) + "'") != std::string::npos &&
                            message.find("'some.field'") != std::string::npos && message.find(num(hi)) != std::string::npos,
                    "dyn-message", what + ": " + message);
        }
        const zserio::View<T> view(T(v), nb);
        VH_EQ(c, static_cast<int>(outcome([&]() { zserio::detail::validate(view, "f"); })), static_cast<int>(want),
                "dyn-view-validate", what);
        V got{};
        VH_EQ(c, static_cast<int>(outcome([&]() { got = zserio::fromCheckedValue<T>(v, nb); })), static_cast<int>(want),
                "dyn-fromCheckedValue", what);
        VH_CHECK(c, !ok || got == v, "dyn-fromCheckedValue-result", what);
        got = V{};
        VH_EQ(c, static_cast<int>(outcome([&]() { got = zserio::toCheckedValue(T(v), nb); })), static_cast<int>(want),
                "dyn-toCheckedValue", what);
        VH_CHECK(c, !ok || got == v, "dyn-toCheckedValue-result", what);
        std::array<uint8_t, 16> buf{};
        zserio::BitStreamWriter w(buf.data(), buf.size() * 8, zserio::BitsTag());
        const unsigned pos = static_cast<unsigned>(c.rng.below(8));
        w.setBitPosition(pos);
        const Outcome o = outcome([&]() { zserio::detail::write(w, view); });
        VH_CHECK(c, ok ? o == ACCEPTED : (o == OUT_OF_RANGE || o == OTHER_RUNTIME), "dyn-write", what);
        VH_EQ(c, static_cast<unsigned>(w.getBitPosition()), pos + (ok ? bits : 0), "dyn-write-position", what);
        c.count(ok ? "accepted" : "rejected");
    }
    c.distinct(type);
    c.count("domains");
}

} // namespace

VH_SECTION(fixed, 64 * 3, 64 * 60)
{
    fixedDomain(c, 1 + c.idx % 64, std::make_index_sequence<64>());
}

VH_SECTION(dynamic, 71 * 8, 71 * 8 * 40)
{
    const unsigned sel = static_cast<unsigned>(c.idx % 72);
    const unsigned bits = sel == 70 ? 256U + static_cast<unsigned>(c.rng.below(66)) : (sel == 71 ? 0xFFFFFFFFU : sel);
    switch (c.idx / 72 % 8)
    {
    case 0:
        return dynDomain<zserio::DynInt8>(c, bits, "dynint8");
    case 1:
        return dynDomain<zserio::DynInt16>(c, bits, "dynint16");
    case 2:
        return dynDomain<zserio::DynInt32>(c, bits, "dynint32");
    case 3:
        return dynDomain<zserio::DynInt64>(c, bits, "dynint64");
    case 4:
        return dynDomain<zserio::DynUInt8>(c, bits, "dynuint8");
    case 5:
        return dynDomain<zserio::DynUInt16>(c, bits, "dynuint16");
    case 6:
        return dynDomain<zserio::DynUInt32>(c, bits, "dynuint32");
    default:
        return dynDomain<zserio::DynUInt64>(c, bits, "dynuint64");
    }
}

VH_SECTION(varints, 10 * 12, 10 * 400)
{
    const auto mag = [](unsigned bits) { return (i128(1) << bits) - 1; };
    switch (c.idx % 10)
    {
    case 0:
        return checkDomain<zserio::VarInt16>(c, -mag(14), mag(14), "varint16");
    case 1:
        return checkDomain<zserio::VarInt32>(c, -mag(28), mag(28), "varint32");
    case 2:
        return checkDomain<zserio::VarInt64>(c, -mag(56), mag(56), "varint64");
    case 3:
        return checkDomain<zserio::VarInt>(c, -mag(63) - 1, mag(63), "varint");
    case 4:
        return checkDomain<zserio::VarUInt16>(c, 0, mag(15), "varuint16");
    case 5:
        return checkDomain<zserio::VarUInt32>(c, 0, mag(29), "varuint32");
    case 6:
        return checkDomain<zserio::VarUInt64>(c, 0, mag(57), "varuint64");
    case 7:
        return checkDomain<zserio::VarUInt>(c, 0, mag(64), "varuint");
    case 8:
        return checkDomain<zserio::VarSize>(c, 0, mag(31), "varsize");
    default:
        checkDomain<zserio::Bool>(c, 0, 1, "bool");
        break;
    }
}

VH_SECTION(bounds, 300, 3000)
{
    const size_t len = c.idx < 70 ? c.idx : (c.idx % 3 == 0 ? c.rng.next() : c.rng.below(300));
    for (bool sign : {false, true})
    {
        int64_t lo = 0;
        uint64_t hi = 0;
        const Outcome a = outcome([&]() { lo = zserio::getBitFieldLowerBound(len, sign); });
        const Outcome b = outcome([&]() { hi = zserio::getBitFieldUpperBound(len, sign); });
        const bool ok = len >= 1 && len <= 64;
        VH_CHECK(c, ok ? (a == ACCEPTED && b == ACCEPTED) : (a == OTHER_RUNTIME && b == OTHER_RUNTIME), "bound-length", len);
        if (ok)
        {
            c.check(static_cast<i128>(lo) == lowBound(static_cast<unsigned>(len), sign), "lower-bound", vh::str(len, sign));
            c.check(static_cast<i128>(hi) == highBound(static_cast<unsigned>(len), sign), "upper-bound", vh::str(len, sign));
            c.count("bounds");
        }
    }
    c.distinct(vh::mix(len, 5));
}

// enumerations and bitmasks: every raw value
namespace
{
template <typename E>
void enumDomain(vh::Case& c, std::initializer_list<int> defined, const char* name)
{
    for (int raw = -128; raw < 256; ++raw)
    {
        using Z = typename zserio::EnumTraits<E>::ZserioType;
        using V = typename Z::ValueType;
        if (raw < static_cast<int>(std::numeric_limits<V>::min()) || raw > static_cast<int>(std::numeric_limits<V>::max()))
        {
            continue;
        }
        const bool ok = std::find(defined.begin(), defined.end(), raw) != defined.end();
        const std::string what = vh::str(name, " ", raw);
        E e{};
        Outcome o = outcome([&]() { e = zserio::valueToEnum<E>(Z(static_cast<V>(raw))); });
        VH_CHECK(c, o == (ok ? ACCEPTED : OTHER_RUNTIME), "valueToEnum", what);
        VH_CHECK(c, !ok || static_cast<int>(e) == raw, "valueToEnum-result", what);
        const E cast = static_cast<E>(static_cast<std::underlying_type_t<E>>(raw));
        o = outcome([&]() { (void)zserio::enumToOrdinal(cast); });
        VH_CHECK(c, o == (ok ? ACCEPTED : OTHER_RUNTIME), "enumToOrdinal", what);
        o = outcome([&]() { (void)zserio::enumToString(cast); });
        VH_CHECK(c, o == (ok ? ACCEPTED : OTHER_RUNTIME), "enumToString", what);
        // decoding
        std::array<uint8_t, 3> buf{};
        const unsigned pos = static_cast<unsigned>(c.rng.below(9));
        zserio::BitStreamWriter w(buf.data(), 24, zserio::BitsTag());
        w.setBitPosition(pos);
        zserio::detail::write(w, Z(static_cast<V>(raw)));
        zserio::BitStreamReader r(buf.data(), 24, zserio::BitsTag());
        r.setBitPosition(pos);
        E back{};
        o = outcome([&]() { zserio::detail::read(r, back); });
        VH_CHECK(c, o == (ok ? ACCEPTED : OTHER_RUNTIME), "enum-read", what);
        VH_CHECK(c, !ok || static_cast<int>(back) == raw, "enum-read-result", what);
        c.count(ok ? "accepted" : "rejected");
        c.distinct(what);
    }
}
} // namespace

VH_SECTION(enums, 20, 200)
{
    namespace O = test_object::std_allocator;
    enumDomain<O::CreatorEnum>(c, {0, 1, -1}, "CreatorEnum");
    enumDomain<O::CreatorUnsignedEnum>(c, {0, 1}, "CreatorUnsignedEnum");
    enumDomain<O::ReflectableEnum>(c, {-1, 0, 1}, "ReflectableEnum");
    enumDomain<O::ReflectableUtilEnum>(c, {0, 1}, "ReflectableUtilEnum");
}

// objects: one thing made invalid anywhere is rejected before anything is produced
namespace
{

template <typename T, typename EXC, typename... ARGS>
void expectRejected(vh::Case& c, const T& obj, bool reject, const std::string& what, const ARGS&... a)
{
    const zserio::View<T> view(obj, a...);
    const auto run = [&](const char* entry, auto&& f) {
        int got = 0; // accepted, matching, other
        std::string message;
        try
        {
            f();
        }
        catch (const EXC& e)
        {
            got = 1;
            message = e.what();
        }
        catch (const std::exception& e)
        {
            got = 2;
            message = e.what();
        }
        VH_EQ(c, got, reject ? 1 : 0, vh::str("object:", entry), what, ": ", message);
    };
    run("validate", [&]() { zserio::detail::validate(view); });
    run("serialize(view)", [&]() { (void)zserio::serialize(view); });
    run("serialize(data)", [&]() { (void)zserio::serialize(obj, a...); });
    run("serializeToBytes", [&]() { (void)zserio::serializeToBytes(view); });
    run("DataView", [&]() { const zserio::DataView<T> v(obj, a...); });
    const std::string f = vh::scratchDir() + "/rejected.blob";
    run("serializeToFile", [&]() { zserio::serializeToFile(view, f); });
    struct stat st{};
    const bool exists = stat(f.c_str(), &st) == 0;
    VH_CHECK(c, exists == !reject, "file-produced", what);
    if (exists)
    {
        unlink(f.c_str());
    }
    c.count(reject ? "rejected" : "accepted");
}

} // namespace

VH_SECTION(objects, 4000, 60000)
{
    namespace O = test_object::std_allocator;
    namespace N = tobj::std_allocator;
    tobj::Gen g(c.rng, tobj::Gen::ANY, 4, 12);
    switch (c.idx % 8)
    {
    case 0: // conditional field present / missing against its condition
    {
        O::WalkerObject o;
        N::build(g.walkerObject(), o);
        const bool flipIt = c.rng.chance(70);
        bool missing = false;
        bool unexpected = false;
        if (flipIt)
        {
            if (o.nested.has_value())
            {
                if (c.rng.flip())
                {
                    o.nested.reset();
                    missing = true;
                }
                else
                {
                    o.identifier = 0U;
                    unexpected = true;
                }
            }
            else if (c.rng.flip())
            {
                o.nested.emplace();
                unexpected = true;
            }
            else
            {
                o.identifier = 1U << c.rng.below(32);
                missing = true;
            }
        }
        if (unexpected)
        {
            expectRejected<O::WalkerObject, zserio::UnexpectedOptionalException>(c, o, true, "unexpected optional");
        }
        else
        {
            expectRejected<O::WalkerObject, zserio::MissedOptionalException>(c, o, missing, "missed optional");
        }
        c.distinct(vh::mix(1, vh::mix(flipIt, std::hash<O::WalkerObject>()(o))));
        break;
    }
    case 1: // choice selector against the choice
    {
        O::WalkerObject o;
        N::build(g.walkerObject(), o);
        const auto before = static_cast<unsigned>(o.choiceSelector);
        const auto eff = [](unsigned s) { return s == 8 || s == 16 || s == 32 || s == 64 ? s : 0U; };
        const unsigned sel = c.rng.chance(60) ? static_cast<unsigned>(c.rng.below(256)) : 8U << c.rng.below(4);
        o.choiceSelector = static_cast<uint8_t>(sel);
        expectRejected<O::WalkerObject, zserio::ChoiceCaseException>(
                c, o, eff(before) != eff(sel), vh::str("choice selector ", before, " -> ", sel));
        c.distinct(vh::mix(2, before * 256 + sel));
        break;
    }
    case 2: // union without a selected field, somewhere in an array
    {
        O::WalkerObject o;
        N::build(g.walkerObject(), o);
        bool bad = false;
        const size_t n = o.unionArray.size();
        if (n != 0 && c.rng.flip())
        {
            o.unionArray[c.rng.below(n)] = O::WalkerUnion();
            bad = true;
        }
        else if (o.optionalUnionArray.has_value() && c.rng.flip())
        {
            o.optionalUnionArray->insert(o.optionalUnionArray->begin() +
                            static_cast<std::ptrdiff_t>(c.rng.below(o.optionalUnionArray->size() + 1)),
                    O::WalkerUnion());
            bad = true;
        }
        expectRejected<O::WalkerObject, zserio::UnionCaseException>(c, o, bad, "union unset");
        c.distinct(vh::mix(3, std::hash<O::WalkerObject>()(o)));
        break;
    }
    case 3: // field and parameter ranges
    {
        O::ReflectableNested o;
        const uint32_t v = static_cast<uint32_t>(c.rng.ubits(32));
        const int32_t p = static_cast<int32_t>(c.rng.sbits(32));
        o.value = v;
        const bool bad = v > 0x7FFFFFFFU || p > 0x3FFFFFFF || p < -0x40000000;
        expectRejected<O::ReflectableNested, zserio::OutOfRangeException>(
                c, o, bad, vh::str("value ", v, " param ", p), zserio::Int31(p), std::string_view("x"));
        c.distinct(vh::mix(4, vh::mix(v, static_cast<uint32_t>(p))));
        break;
    }
    case 4:
    {
        O::ReflectableObject o;
        N::build(g.reflectableObject(), o);
        const uint32_t v = static_cast<uint32_t>(c.rng.ubits(32));
        o.reflectableNested.value = v;
        expectRejected<O::ReflectableObject, zserio::OutOfRangeException>(c, o, v > 0x7FFFFFFFU, vh::str("nested value ", v));
        c.distinct(vh::mix(5, v));
        break;
    }
    case 5: // choice by enumeration
    {
        O::ReflectableObject o;
        N::build(g.reflectableObject(), o);
        const auto before = o.reflectableEnum;
        static const O::ReflectableEnum all[] = {
                O::ReflectableEnum::VALUE1, O::ReflectableEnum::VALUE2, O::ReflectableEnum::VALUE3};
        o.reflectableEnum = all[c.rng.below(3)];
        expectRejected<O::ReflectableObject, zserio::ChoiceCaseException>(c, o, before != o.reflectableEnum, "enum selector");
        c.distinct(vh::mix(6, static_cast<uint64_t>(before) * 7 + static_cast<uint64_t>(o.reflectableEnum)));
        break;
    }
    case 6: // nested union of the top level union
    {
        O::ReflectableUtilUnion o;
        N::build(g.reflectableUtilUnion(), o);
        bool bad = false;
        if (c.rng.chance(30))
        {
            o = O::ReflectableUtilUnion();
            bad = true;
        }
        expectRejected<O::ReflectableUtilUnion, zserio::UnionCaseException>(c, o, bad, "union");
        c.distinct(vh::mix(7, std::hash<O::ReflectableUtilUnion>()(o)));
        break;
    }
    default:
    {
        O::ReflectableUtilObject o;
        N::build(g.reflectableUtilObject(), o);
        const auto eff = [](unsigned s) { return s == 1 || s == 2; };
        const auto before = static_cast<unsigned>(o.choiceParam);
        const unsigned p = static_cast<unsigned>(c.rng.chance(70) ? c.rng.below(4) : c.rng.below(256));
        o.choiceParam = static_cast<uint8_t>(p);
        expectRejected<O::ReflectableUtilObject, zserio::ChoiceCaseException>(
                c, o, eff(before) != eff(p), vh::str("choice param ", before, " -> ", p));
        c.distinct(vh::mix(8, before * 256 + p));
        break;
    }
    }
    c.count("objects");
}

// arrays: one invalid element among valid ones, and array length against the declared one
namespace
{
template <typename T>
void arrayCase(vh::Case& c, i128 lo, i128 hi, const char* name)
{
    using V = typename T::ValueType;
    vh::Pause pause;
    zserio::Vector<T> v;
    const size_t n = c.rng.below(12);
    for (size_t i = 0; i < n; ++i)
    {
        v.push_back(T(static_cast<V>(lo + static_cast<i128>(c.rng.next()) % (hi - lo + 1))));
    }
    const bool canBad = static_cast<i128>(std::numeric_limits<V>::max()) > hi;
    bool bad = false;
    if (n != 0 && canBad && c.rng.flip())
    {
        bad = true;
        v[c.rng.below(n)] = T(static_cast<V>(hi + 1 + static_cast<i128>(c.rng.next()) %
                                                        (static_cast<i128>(std::numeric_limits<V>::max()) - hi)));
    }
    const zserio::ArrayView<const T> view(v);
    const std::string what = vh::str(name, " n=", n, " bad=", bad);
    VH_EQ(c, static_cast<int>(outcome([&]() { zserio::detail::validate<zserio::detail::ArrayType::AUTO>(view, "f"); })),
            static_cast<int>(bad ? OUT_OF_RANGE : ACCEPTED), "array-auto", what);
    const size_t declared = c.rng.flip() ? n : c.rng.below(14);
    int got = 0;
    try
    {
        zserio::detail::validate<zserio::detail::ArrayType::NORMAL>(view, "f", declared);
    }
    catch (const zserio::ArrayLengthException&)
    {
        got = 2;
    }
    catch (const zserio::OutOfRangeException&)
    {
        got = 1;
    }
    VH_EQ(c, got, declared != n ? 2 : (bad ? 1 : 0), "array-normal", what, " declared ", declared);
    c.count(bad ? "rejected" : "accepted");
    c.distinct(vh::str(what, declared));
}
} // namespace

VH_SECTION(arrays, 2000, 30000)
{
    const auto mag = [](unsigned bits) { return (i128(1) << bits) - 1; };
    switch (c.idx % 8)
    {
    case 0:
        return arrayCase<zserio::UInt31>(c, 0, mag(31), "bit:31");
    case 1:
        return arrayCase<zserio::Int5>(c, -16, 15, "int:5");
    case 2:
        return arrayCase<zserio::UInt1>(c, 0, 1, "bit:1");
    case 3:
        return arrayCase<zserio::Int63>(c, lowBound(63, true), highBound(63, true), "int:63");
    case 4:
        return arrayCase<zserio::VarSize>(c, 0, mag(31), "varsize");
    case 5:
        return arrayCase<zserio::VarUInt64>(c, 0, mag(57), "varuint64");
    case 6:
        return arrayCase<zserio::VarInt32>(c, -mag(28), mag(28), "varint32");
    default:
        return arrayCase<zserio::UInt8>(c, 0, 255, "uint8");
    }
}
