// C24: numbers, names and exception messages as text
#include <cmath>
#include <memory>

#include "life.h"
#include "sqlite3.h"
#include "test_object/std_allocator/CreatorBitmask.h"
#include "test_object/std_allocator/CreatorEnum.h"
#include "test_object/std_allocator/CreatorNested.h"
#include "test_object/std_allocator/ReflectableBitmask.h"
#include "test_object/std_allocator/ReflectableEnum.h"
#include "test_object/std_allocator/ReflectableUtilBitmask.h"
#include "test_object/std_allocator/ReflectableUtilEnum.h"
#include "test_object/std_allocator/WalkerBitmask.h"
#include "zserio/BitBuffer.h"
#include "zserio/Bitmasks.h"
#include "zserio/Enums.h"
#include "zserio/JsonTokenizer.h"
#include "zserio/SqliteException.h"
#include "zserio/Types.h"
#include "zserio/Vector.h"
#include "zserio/ZserioTreeCreator.h"

using namespace test_object::std_allocator;

namespace
{

std::string dec(unsigned __int128 v)
{
    std::string s;
    do
    {
        s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
        v /= 10;
    } while (v != 0);
    return s;
}
template <typename T>
std::string refText(T v)
{
    if constexpr (std::is_signed_v<T>)
    {
        if (v < 0)
        {
            return "-" + dec(static_cast<unsigned __int128>(-static_cast<__int128>(v)));
        }
    }
    return dec(static_cast<unsigned __int128>(v));
}

template <typename T, typename W>
void oneInt(vh::Case& c, T v, bool full)
{
    const std::string exp = refText(v);
    std::array<char, 24> buffer;
    buffer.fill('#');
    const char* s = zserio::convertIntToString(buffer, v);
    VH_CHECK(c, s >= buffer.data() && s < buffer.data() + buffer.size(), "pointer-outside-buffer", exp);
    VH_CHECK(c, exp == s, "int-text", "got '", s, "' expected '", exp, "'");
    if (!full)
    {
        return;
    }
    VH_EQ(c, std::string(zserio::toString(v)), exp, "toString");
    VH_EQ(c, std::string(zserio::toString<std::allocator<uint8_t>>(W(v))), exp, "toString-wrapper");
    life::TrackRes res("r");
    {
        const std::pmr::polymorphic_allocator<uint8_t> al(&res);
        const auto ps = zserio::toString(v, al);
        VH_CHECK(c, exp == std::string_view(ps.data(), ps.size()), "toString-pmr", exp);
        VH_CHECK(c, ps.get_allocator().resource() == &res, "toString-allocator", exp);
    }
    zserio::CppRuntimeException e;
    e << v;
    VH_EQ(c, std::string(e.what()), exp, "exception-int");
    zserio::CppRuntimeException e2;
    e2 << W(v);
    VH_EQ(c, std::string(e2.what()), exp, "exception-wrapper");
}

template <typename T, typename W>
void wide(vh::Case& c, unsigned bits)
{
    const size_t n = 400;
    for (size_t i = 0; i < n; ++i)
    {
        T v;
        switch (c.rng.below(4))
        {
        case 0: // around powers of ten
        {
            unsigned __int128 p = 1;
            for (uint64_t k = c.rng.below(20); k > 0; --k)
            {
                p *= 10;
            }
            v = static_cast<T>(static_cast<uint64_t>(p) * (1 + c.rng.below(9)) + c.rng.below(3) - 1);
            break;
        }
        case 1:
            v = static_cast<T>(std::numeric_limits<T>::max() - static_cast<T>(c.rng.below(3)));
            break;
        case 2:
            v = static_cast<T>(std::numeric_limits<T>::min() + static_cast<T>(c.rng.below(3)));
            break;
        default:
            v = static_cast<T>(c.rng.ubits(bits));
        }
        if (std::is_signed_v<T> && c.rng.flip())
        {
            v = static_cast<T>(~static_cast<uint64_t>(v));
        }
        oneInt<T, W>(c, v, i % 4 == 0);
        c.distinct(vh::mix(bits * 2 + std::is_signed_v<T>, static_cast<uint64_t>(v)));
    }
    c.count("values", n);
}

} // namespace

VH_SECTION(small_ints, 4, 4)
{
    // every 8-bit and 16-bit value
    switch (c.idx % 4)
    {
    case 0:
        for (int v = -128; v < 128; ++v)
        {
            oneInt<int8_t, zserio::Int8>(c, static_cast<int8_t>(v), true);
            c.distinct(vh::mix(800, static_cast<uint64_t>(v)));
        }
        break;
    case 1:
        for (int v = 0; v < 256; ++v)
        {
            oneInt<uint8_t, zserio::UInt8>(c, static_cast<uint8_t>(v), true);
            c.distinct(vh::mix(801, static_cast<uint64_t>(v)));
        }
        break;
    case 2:
        for (int v = -32768; v < 32768; ++v)
        {
            oneInt<int16_t, zserio::Int16>(c, static_cast<int16_t>(v), v % 64 == 0);
            c.distinct(vh::mix(802, static_cast<uint64_t>(v)));
        }
        break;
    default:
        for (int v = 0; v < 65536; ++v)
        {
            oneInt<uint16_t, zserio::UInt16>(c, static_cast<uint16_t>(v), v % 64 == 0);
            c.distinct(vh::mix(803, static_cast<uint64_t>(v)));
        }
    }
    c.count("types");
}

VH_SECTION(wide_ints, 80, 4000)
{
    switch (c.idx % 8)
    {
    case 0:
        wide<int32_t, zserio::Int32>(c, 32);
        break;
    case 1:
        wide<uint32_t, zserio::UInt32>(c, 32);
        break;
    case 2:
        wide<int64_t, zserio::Int64>(c, 64);
        break;
    case 3:
        wide<uint64_t, zserio::UInt64>(c, 64);
        break;
    case 4:
        wide<int64_t, zserio::VarInt>(c, 64);
        break;
    case 5:
        wide<uint64_t, zserio::VarUInt>(c, 64);
        break;
    case 6:
        wide<int32_t, zserio::DynInt32>(c, 32);
        break;
    default:
        wide<uint64_t, zserio::DynUInt64>(c, 64);
    }
}

VH_SECTION(bools, 1, 1)
{
    for (const bool b : {false, true})
    {
        const std::string exp = b ? "true" : "false";
        VH_EQ(c, std::string(zserio::convertBoolToString(b)), exp, "bool-text");
        VH_EQ(c, std::string(zserio::toString<std::allocator<char>>(b)), exp, "bool-toString");
        VH_EQ(c, std::string(zserio::toString<std::allocator<char>>(zserio::Bool(b))), exp, "bool-wrapper-toString");
        zserio::CppRuntimeException e;
        e << b << "," << zserio::Bool(b);
        VH_EQ(c, std::string(e.what()), exp + "," + exp, "bool-exception");
        c.distinct(b);
    }
}

namespace
{

// the text must denote the single precision value, truncated to three digits
void checkFloatText(vh::Case& c, float v, const std::string& s)
{
    if (std::isnan(v))
    {
        VH_EQ(c, s, std::string("NaN"), "nan-text");
        return;
    }
    if (std::fabs(v) >= 9223372036854775808.0F) // documented limit of the text form
    {
        VH_EQ(c, s, std::string(v > 0 ? "+Inf" : "-Inf"), "inf-text", v);
        return;
    }
    size_t i = 0;
    const bool neg = !s.empty() && s[0] == '-';
    i += neg ? 1 : 0;
    const size_t dot = s.find('.');
    VH_CHECK(c, dot != std::string::npos && dot > i && dot + 1 < s.size(), "float-format", "'", s, "' for ", v);
    unsigned __int128 ip = 0;
    for (size_t k = i; k < dot; ++k)
    {
        VH_CHECK(c, s[k] >= '0' && s[k] <= '9', "float-format", "'", s, "' for ", v);
        ip = ip * 10 + static_cast<unsigned>(s[k] - '0');
    }
    VH_CHECK(c, dot == i + 1 || s[i] != '0', "float-leading-zero", "'", s, "' for ", v);
    long double frac = 0;
    long double scale = 1;
    for (size_t k = dot + 1; k < s.size(); ++k)
    {
        VH_CHECK(c, s[k] >= '0' && s[k] <= '9', "float-format", "'", s, "' for ", v);
        scale /= 10;
        frac += scale * (s[k] - '0');
    }
    const long double a = std::fabs(static_cast<long double>(v));
    const long double t = static_cast<long double>(ip) + frac;
    VH_CHECK(c, std::fabs(a - t) < 0.00101L, "float-value", "'", s, "' for ", v);
    VH_CHECK(c, t == 0 ? true : (neg == (v < 0)), "float-sign", "'", s, "' for ", v);
    VH_CHECK(c, !(neg && v > 0), "float-sign", "'", s, "' for ", v);
}

float randomFloat(vh::Rng& r)
{
    float f;
    switch (r.below(6))
    {
    case 0:
    {
        const uint32_t u = static_cast<uint32_t>(r.next());
        std::memcpy(&f, &u, 4);
        return f;
    }
    case 1:
        return static_cast<float>(r.range(-5000, 5000)) / 1000.0F;
    case 2:
        return std::ldexp(static_cast<float>(r.range(-9, 9)), static_cast<int>(r.range(-40, 66)));
    case 3:
    {
        static const float sp[] = {0.0F, -0.0F, 0.001F, -0.001F, 0.0009F, 0.999F, 0.9999F, -0.9999999F, 1.0F, 9.05F, 100.099F,
                9223371487098961920.0F, 9223372036854775808.0F, -9223372036854775808.0F, -9223371487098961920.0F,
                std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(),
                std::numeric_limits<float>::quiet_NaN(), std::numeric_limits<float>::max(), std::numeric_limits<float>::min(),
                std::numeric_limits<float>::denorm_min(), 16777216.0F, 8388607.5F, 2147483648.0F};
        return r.pick(sp);
    }
    case 4:
        return static_cast<float>(r.range(-2000000, 2000000)) / 1024.0F;
    default:
        return static_cast<float>(r.sbits(62)) * std::ldexp(1.0F, static_cast<int>(r.range(-60, 3)));
    }
}

std::string floatText(float f)
{
    zserio::CppRuntimeException e;
    e << f;
    return e.what();
}

} // namespace

VH_SECTION(floats, 300, 20000)
{
    for (int i = 0; i < 200; ++i)
    {
        const float f = randomFloat(c.rng);
        std::array<char, 24> b1 = {};
        std::array<char, 24> b2 = {};
        const char* ip = nullptr;
        const char* fp = nullptr;
        zserio::convertFloatToString(b1, b2, f, ip, fp);
        const std::string s = std::string(ip) + (fp != nullptr ? std::string(".") + fp : std::string());
        c.trace(vh::str("float ", f));
        checkFloatText(c, f, s);
        VH_EQ(c, floatText(f), s, "exception-float", f);
        zserio::CppRuntimeException e;
        e << static_cast<double>(f) << " " << zserio::Float32(f) << " " << zserio::Float64(f);
        VH_EQ(c, std::string(e.what()), s + " " + s + " " + s, "exception-double", f);
        uint32_t u;
        std::memcpy(&u, &f, 4);
        c.distinct(vh::mix(1, u));
        c.count(fp != nullptr ? "digits" : "special");
        c.clearTrace();
    }
    for (int i = 0; i < 50; ++i)
    {
        double d;
        const uint64_t u = c.rng.next();
        std::memcpy(&d, &u, 8);
        if (c.rng.flip())
        {
            d = static_cast<double>(randomFloat(c.rng)) * (1 + static_cast<double>(c.rng.below(1000)) * 1e-9);
        }
        c.trace(vh::str("double ", d));
        zserio::CppRuntimeException e;
        e << d;
        checkFloatText(c, static_cast<float>(d), e.what());
        c.distinct(vh::mix(2, u));
        c.clearTrace();
    }
}

namespace
{

struct Item
{
    const char* name;
    int64_t value;
};

// a name which is close to, but is none of the names
std::string nearMiss(vh::Rng& r, const std::string& name)
{
    std::string s = name;
    switch (r.below(7))
    {
    case 0:
        s.pop_back();
        break;
    case 1:
        s += static_cast<char>('0' + r.below(75));
        break;
    case 2:
        s.back() = static_cast<char>(s.back() ^ 0x20);
        break;
    case 3:
        s = " " + s;
        break;
    case 4:
        s += std::string(1, '\0');
        break;
    case 5:
        s = std::string(r.below(600), 'N') + s;
        s += "N";
        break;
    default:
        s.clear();
    }
    return s;
}

// string view which is not followed by a zero
template <typename F>
void withView(const std::string& s, const F& f)
{
    std::unique_ptr<char[]> p(new char[s.size()]);
    std::memcpy(p.get(), s.data(), s.size());
    f(std::string_view(p.get(), s.size()));
}

template <typename E>
void enumNames(vh::Case& c, const std::vector<Item>& items)
{
    const std::string en = std::string(zserio::EnumTraits<E>::enumName);
    std::set<std::string> names;
    for (size_t i = 0; i < items.size(); ++i)
    {
        const E e = static_cast<E>(items[i].value);
        VH_EQ(c, std::string(zserio::enumToString(e)), std::string(items[i].name), "enumToString");
        VH_EQ(c, zserio::enumToOrdinal(e), i, "enumToOrdinal");
        VH_CHECK(c, zserio::valueToEnum<E>(zserio::enumToValue(e)) == e, "valueToEnum", items[i].name);
        withView(items[i].name, [&](std::string_view v) {
            VH_CHECK(c, zserio::stringToEnum<E>(v) == e, "stringToEnum", items[i].name);
        });
        zserio::CppRuntimeException ex("x");
        ex << e;
        VH_EQ(c, std::string(ex.what()), std::string("x") + items[i].name, "exception-enum");
        names.insert(items[i].name);
        c.distinct(vh::hashStr(en) + i);
        c.count("names");
    }
    for (int i = 0; i < 6; ++i)
    {
        const std::string s = nearMiss(c.rng, items[c.rng.below(items.size())].name);
        if (names.count(s) != 0)
        {
            continue;
        }
        withView(s, [&](std::string_view v) {
            bool thrown = false;
            std::string what;
            try
            {
                (void)zserio::stringToEnum<E>(v);
            }
            catch (const zserio::CppRuntimeException& e)
            {
                thrown = true;
                what = e.what();
            }
            VH_CHECK(c, thrown, "unknown-name-accepted", s);
            std::string exp = "Enum item '" + s + "' doesn't exist in enum '" + en + "'!";
            exp = std::string(exp.substr(0, 511).c_str());
            VH_EQ(c, what, exp, "error-text");
            c.count("rejected_names");
        });
    }
}

template <typename B>
void bitmaskText(vh::Case& c, const std::vector<Item>& items, uint64_t maxValue)
{
    using V = typename B::ZserioType::ValueType;
    for (uint64_t i = 0; i < 40; ++i)
    {
        const uint64_t v = (i <= 8 ? i : c.rng.next()) & maxValue;
        const B b{static_cast<V>(v)};
        std::string exp;
        for (const Item& it : items)
        {
            if ((v & static_cast<uint64_t>(it.value)) == static_cast<uint64_t>(it.value) && it.value != 0)
            {
                exp += (exp.empty() ? "" : " | ") + std::string(it.name);
            }
        }
        if (items.size() == 1 && items[0].value == 0)
        {
            exp.clear();
        }
        VH_EQ(c, std::string(b.toString()), refText(v) + "[" + exp + "]", "bitmask-text");
        zserio::CppRuntimeException e;
        e << b;
        VH_EQ(c, std::string(e.what()), refText(v), "exception-bitmask");
        c.distinct(vh::mix(v, items.size()));
        c.count("bitmasks");
    }
}

} // namespace

VH_SECTION(names, 30, 600)
{
    enumNames<CreatorEnum>(c, {{"ONE", 0}, {"TWO", 1}, {"MinusOne", -1}});
    enumNames<ReflectableEnum>(c, {{"VALUE1", -1}, {"VALUE2", 0}, {"VALUE3", 1}});
    enumNames<ReflectableUtilEnum>(c, {{"ONE", 0}, {"TWO", 1}});
    bitmaskText<CreatorBitmask>(c, {{"READ", 1}, {"WRITE", 2}}, 255);
    bitmaskText<ReflectableBitmask>(c, {{"CREATE", 1}, {"READ", 2}, {"WRITE", 4}}, 255);
    bitmaskText<ReflectableUtilBitmask>(c, {{"READ", 1}, {"WRITE", 2}}, 255);
    bitmaskText<WalkerBitmask>(c, {{"ZERO", 1}}, 0xFFFFFFFF);
}

VH_SECTION(names_back, 40, 1000)
{
    // texts of enumerators and bitmasks name the same values when an object is created from text
    using zserio::ZserioTreeCreator;
    static const Item enums[] = {{"ONE", 0}, {"TWO", 1}, {"MinusOne", -1}};
    for (int i = 0; i < 3; ++i)
    {
        const Item& e = enums[static_cast<size_t>(i)];
        const uint64_t bv = c.rng.below(4);
        std::string bt;
        static const std::string seps[] = {" | ", "|", " |", "|  "};
        const std::string& sep = c.rng.pick(seps);
        if ((bv & 1) != 0)
        {
            bt = "READ";
        }
        if ((bv & 2) != 0)
        {
            bt += (bt.empty() ? "" : sep) + std::string("WRITE");
        }
        const bool numeric = bv == 0 || c.rng.chance(30);
        if (numeric)
        {
            bt = std::string(CreatorBitmask(static_cast<uint8_t>(bv)).toString()); // e.g. 3[READ | WRITE]
        }
        ZserioTreeCreator creator(zserio::typeInfo<CreatorNested>());
        creator.beginRoot();
        withView(e.name, [&](std::string_view v) {
            creator.setValue("creatorEnum", v);
        });
        withView(bt, [&](std::string_view v) {
            creator.setValue("creatorBitmask", v);
        });
        auto r = creator.endRoot();
        VH_CHECK(c, r != nullptr, "no-object", "");
        VH_EQ(c, r->getField("creatorEnum")->toInt(), e.value, "enum-from-text", e.name);
        VH_EQ(c, r->getField("creatorBitmask")->toUInt(), bv, "bitmask-from-text", bt);
        c.distinct(vh::hashStr(bt, static_cast<uint64_t>(i)));
        c.count("texts");
    }
    // names which do not exist
    const std::string bad = nearMiss(c.rng, c.rng.flip() ? "READ" : "READ | WRITE");
    const std::string badEnum = nearMiss(c.rng, c.rng.flip() ? "ONE" : "MinusOne");
    for (const bool isEnum : {true, false})
    {
        const std::string& s = isEnum ? badEnum : bad;
        if (!isEnum && (s == "READ" || s == "READ | WRITE" || s == "WRITE"))
        {
            continue;
        }
        ZserioTreeCreator creator(zserio::typeInfo<CreatorNested>());
        creator.beginRoot();
        bool thrown = false;
        withView(s, [&](std::string_view v) {
            try
            {
                creator.setValue(isEnum ? "creatorEnum" : "creatorBitmask", v);
            }
            catch (const zserio::CppRuntimeException&)
            {
                thrown = true;
            }
        });
        VH_CHECK(c, thrown, "unknown-text-accepted", "'", s, "'");
        c.count("rejected_texts");
    }
}

namespace
{

struct Derived : zserio::CppRuntimeException
{
    using zserio::CppRuntimeException::CppRuntimeException;
    int tag = 77;
};

template <typename EX>
std::string appendPiece(vh::Case& c, EX& e)
{
    vh::Rng& r = c.rng;
    auto text = [&](size_t maxLen) {
        std::string s(r.below(maxLen + 1), 'a');
        for (char& ch : s)
        {
            ch = static_cast<char>(1 + r.below(255));
        }
        return s;
    };
    const size_t maxLen = r.chance(10) ? 700 : (r.chance(20) ? 120 : 12);
    switch (r.below(24))
    {
    case 0:
    {
        const std::string s = text(maxLen);
        std::unique_ptr<char[]> p(new char[s.size() + 1]);
        std::memcpy(p.get(), s.c_str(), s.size() + 1);
        e << static_cast<const char*>(p.get());
        return s;
    }
    case 1:
    case 2:
    {
        const std::string s = text(maxLen);
        withView(s, [&](std::string_view v) {
            e << v;
        });
        return s;
    }
    case 3:
    {
        const std::string s = text(maxLen);
        e << s;
        return s;
    }
    case 4:
    {
        const bool b = r.flip();
        e << b;
        return b ? "true" : "false";
    }
    case 5:
    {
        const auto v = static_cast<int8_t>(r.next());
        e << v;
        return refText(v);
    }
    case 6:
    {
        const auto v = static_cast<uint16_t>(r.ubits(16));
        e << v;
        return refText(v);
    }
    case 7:
    {
        const auto v = static_cast<int32_t>(r.sbits(32));
        e << v;
        return refText(v);
    }
    case 8:
    {
        const int64_t v = r.sbits(64);
        e << v;
        return refText(v);
    }
    case 9:
    {
        const uint64_t v = r.ubits(64);
        e << v;
        return refText(v);
    }
    case 10:
    {
        const float v = randomFloat(r);
        e << v;
        return floatText(v);
    }
    case 11:
    {
        const double v = static_cast<double>(randomFloat(r));
        e << v;
        return floatText(static_cast<float>(v));
    }
    case 12:
    {
        static const CreatorEnum es[] = {CreatorEnum::ONE, CreatorEnum::TWO, CreatorEnum::MinusOne};
        static const char* ns[] = {"ONE", "TWO", "MinusOne"};
        const size_t i = r.below(3);
        e << es[i];
        return ns[i];
    }
    case 13:
    {
        const auto v = static_cast<uint8_t>(r.next());
        e << CreatorBitmask(v);
        return refText(v);
    }
    case 14:
    {
        const size_t n = r.below(100);
        e << zserio::BitBuffer(n);
        return "BitBuffer([...], " + refText(n) + ")";
    }
    case 15:
    {
        const size_t n = r.below(50);
        e << zserio::Vector<int>(n);
        return "vector([...], " + refText(n) + ")";
    }
    case 16:
    {
        const int64_t v = r.sbits(62);
        e << zserio::VarInt(v);
        return refText(v);
    }
    case 17:
    {
        const auto v = static_cast<uint8_t>(r.ubits(7));
        e << zserio::UInt7(v);
        return refText(v);
    }
    case 18:
    {
        static const zserio::JsonToken ts[] = {zserio::JsonToken::UNKNOWN, zserio::JsonToken::BEGIN_OF_FILE,
                zserio::JsonToken::END_OF_FILE, zserio::JsonToken::BEGIN_OBJECT, zserio::JsonToken::END_OBJECT,
                zserio::JsonToken::BEGIN_ARRAY, zserio::JsonToken::END_ARRAY, zserio::JsonToken::KEY_SEPARATOR,
                zserio::JsonToken::ITEM_SEPARATOR, zserio::JsonToken::VALUE};
        static const char* ns[] = {"UNKNOWN", "BEGIN_OF_FILE", "END_OF_FILE", "BEGIN_OBJECT", "END_OBJECT", "BEGIN_ARRAY",
                "END_ARRAY", "KEY_SEPARATOR", "ITEM_SEPARATOR", "VALUE"};
        const size_t i = r.below(10);
        e << ts[i];
        return ns[i];
    }
    case 19:
    {
        const int code = static_cast<int>(r.below(30));
        e << zserio::SqliteErrorCode(code);
        return sqlite3_errstr(code);
    }
    case 20: // its own text
    {
        const std::string s = e.what();
        e << e.what();
        return s;
    }
    case 21:
    {
        const std::pmr::string s(text(maxLen).c_str());
        e << s;
        return std::string(s.c_str());
    }
    case 22:
    {
        const std::string s = text(maxLen);
        e.append(s.c_str());
        return s;
    }
    default:
    {
        const std::string s = text(maxLen);
        const size_t n = s.empty() ? 0 : r.below(s.size() + 1);
        withView(s.substr(0, n), [&](std::string_view v) {
            e.append(v.data(), v.size());
        });
        return s.substr(0, n);
    }
    }
}

constexpr size_t CAPACITY = 511;

template <typename EX>
void history(vh::Case& c)
{
    // guard areas around the exception: nothing may be written outside
    struct Guarded
    {
        explicit Guarded(const char* m) :
                ex(m)
        {
            before.fill('G');
            after.fill('G');
        }
        std::array<char, 64> before;
        EX ex;
        std::array<char, 64> after;
    };
    std::string model;
    const size_t startLen = c.rng.chance(20) ? c.rng.below(700) : c.rng.below(40);
    const std::string start(startLen, 's');
    auto g = std::make_unique<Guarded>(start.c_str());
    model = start.substr(0, CAPACITY);
    const size_t n = 1 + c.rng.below(25);
    uint64_t h = startLen;
    for (size_t i = 0; i < n; ++i)
    {
        const std::string piece = appendPiece(c, g->ex);
        c.trace(vh::str("+", piece.size(), ":", piece.substr(0, 20)));
        const bool over = model.size() + piece.size() > CAPACITY;
        model += piece;
        model = model.substr(0, CAPACITY);
        VH_CHECK(c, std::strlen(g->ex.what()) <= CAPACITY, "not-terminated", "");
        VH_EQ(c, std::string(g->ex.what()), model, "message");
        c.count(over ? "truncated" : "appended");
        h = vh::mix(h, vh::hashStr(piece));
        switch (c.rng.below(8))
        {
        case 0: // copy
        {
            EX copy(g->ex);
            VH_EQ(c, std::string(copy.what()), model, "copy");
            copy << "tail";
            VH_EQ(c, std::string(g->ex.what()), model, "copy-is-independent");
            VH_EQ(c, std::string(copy.what()), (model + "tail").substr(0, CAPACITY), "copy-append");
            break;
        }
        case 1:
        {
            EX other("other");
            other = g->ex;
            VH_EQ(c, std::string(other.what()), model, "copy-assign");
            g->ex = std::move(other);
            VH_EQ(c, std::string(g->ex.what()), model, "move-assign");
            break;
        }
        case 2:
        {
            EX moved(std::move(g->ex));
            VH_EQ(c, std::string(moved.what()), model, "move");
            g->ex = moved;
            break;
        }
        default:
            break;
        }
    }
    for (const auto* a : {&g->before, &g->after})
    {
        for (const char ch : *a)
        {
            VH_CHECK(c, ch == 'G', "written-outside", "");
        }
    }
    c.distinct(h);
}

template <typename EX>
void rvalue(vh::Case& c)
{
    // chained on a temporary: type and text survive the throw
    const std::string a = std::string(c.rng.below(300), 'a');
    const int64_t v = c.rng.sbits(64);
    const float f = randomFloat(c.rng);
    const std::string exp =
            (a + refText(v) + "|" + floatText(f) + "ONE" + a + "BitBuffer([...], 5)").substr(0, CAPACITY);
    bool caught = false;
    try
    {
        withView(a, [&](std::string_view av) {
            throw EX(a.c_str()) << v << "|" << f << CreatorEnum::ONE << av << zserio::BitBuffer(5);
        });
    }
    catch (const EX& e)
    {
        caught = true;
        VH_EQ(c, std::string(e.what()), exp, "rvalue-message");
        if constexpr (std::is_same_v<EX, Derived>)
        {
            VH_EQ(c, e.tag, 77, "rvalue-type");
        }
    }
    catch (const zserio::CppRuntimeException&)
    {}
    VH_CHECK(c, caught, "type-lost", "");
    c.count("thrown");
}

} // namespace

VH_SECTION(messages, 1500, 60000)
{
    switch (c.rng.below(4))
    {
    case 0:
        history<Derived>(c);
        break;
    case 1:
        history<zserio::SqliteException>(c);
        break;
    default:
        history<zserio::CppRuntimeException>(c);
    }
}

VH_SECTION(thrown_messages, 200, 2000)
{
    rvalue<zserio::CppRuntimeException>(c);
    rvalue<Derived>(c);
    rvalue<zserio::SqliteException>(c);
    rvalue<zserio::JsonParserException>(c);
}
