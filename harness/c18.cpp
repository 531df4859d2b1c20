// C18: reflection shows and changes exactly the underlying data
#include "c18.h"

namespace c18
{
#define DECL(x) void x(vh::Case& c)
DECL(objects_std);
DECL(objects_pmr);
DECL(objects_ppmr);
DECL(histories_std);
DECL(histories_pmr);
DECL(histories_ppmr);
DECL(allTypes_std);
DECL(allTypes_ppmr);
DECL(leafViews_std);
DECL(leafViews_ppmr);

bool sameBits(double a, double b)
{
    return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b));
}

template <typename T>
static void pairOf(vh::Case& c, T a, T b)
{
    const zserio::IReflectableDataConstPtr ra = zserio::reflectable(a);
    const zserio::IReflectableDataConstPtr rb = zserio::reflectable(b);
    const double x = static_cast<double>(static_cast<typename T::ValueType>(a));
    const double y = static_cast<double>(static_cast<typename T::ValueType>(b));
    const Same s = sameDouble(x, y);
    char t[100];
    snprintf(t, sizeof t, "%.17g and %.17g", x, y);
    const bool eq = zserio::ReflectableUtil::equal<std::allocator<uint8_t>>(ra, rb);
    c.check(s == CLOSE || eq == (s == EQUAL), s == EQUAL ? "floats/same-differ" : "floats/different-equal", t);
    c.check(zserio::ReflectableUtil::equal<std::allocator<uint8_t>>(rb, ra) == eq, "floats/asymmetric", t);
    c.count(s == EQUAL ? "equal_pairs" : (s == CLOSE ? "close_pairs" : "different_pairs"));
    c.distinct(vh::mix(ref::f64bits(x), ref::f64bits(y)));
}
static double randomDouble(vh::Rng& r)
{
    switch (r.below(6))
    {
    case 0:
        return ref::bitsF64(r.ubits(64));
    case 1:
        return std::ldexp(static_cast<double>(r.range(-9, 9)), static_cast<int>(r.range(-1074, 1020)));
    case 2:
        return (r.flip() ? -1.0 : 1.0) * std::ldexp(0.5 + 0.5 * static_cast<double>(r.below(1000)) / 1000.0, 1024 - static_cast<int>(r.below(3)));
    case 3:
    {
        static const double special[] = {0.0, -0.0, 1.0, -1.0, INFINITY, -INFINITY, NAN, 1.7e308, -1.7e308, 1e308, 5e-324, 2.3e-308};
        return special[r.below(std::size(special))];
    }
    default:
        return static_cast<double>(r.sbits(64)) / 1000;
    }
}
static void floats(vh::Case& c)
{
    vh::Rng& r = c.rng;
    for (int i = 0; i < 20; ++i)
    {
        const double a = randomDouble(r);
        double b = a;
        switch (r.below(5))
        {
        case 0:
            break;
        case 1:
            b = -a;
            break;
        case 2:
            b = a * (1 + std::ldexp(1.0, -static_cast<int>(r.below(55))));
            break;
        default:
            b = randomDouble(r);
            break;
        }
        pairOf(c, zserio::Float64(a), zserio::Float64(b));
        const auto narrow = [](double v) { return std::isfinite(v) && std::fabs(v) > 3e38 ? (v < 0 ? -3e38F : 3e38F) : static_cast<float>(v); };
        pairOf(c, zserio::Float32(narrow(a)), zserio::Float32(narrow(b)));
    }
}
static void expectEqual(vh::Case& c, const zserio::IReflectableDataConstPtr& a, const zserio::IReflectableDataConstPtr& b, bool want, const std::string& what)
{
    c.check(zserio::ReflectableUtil::equal<std::allocator<uint8_t>>(a, b) == want, want ? "near/same-differ" : "near/different-equal", what);
    c.check(zserio::ReflectableUtil::equal<std::allocator<uint8_t>>(b, a) == want, "near/asymmetric", what);
    c.count(want ? "equal_pairs" : "different_pairs");
    c.distinct(what);
}
// two values which differ in one bit or by one, alone and at one place of an array
template <typename T>
static void nearNumbers(vh::Case& c, const char* name)
{
    using V = typename T::ValueType;
    vh::Rng& r = c.rng;
    // any stored value is compared, not only those which can be serialised
    const V a = static_cast<V>(r.flip() ? r.next() : r.ubits(static_cast<unsigned>(1 + r.below(64))));
    V b = a;
    const unsigned how = static_cast<unsigned>(r.below(4));
    if (how == 1)
    {
        b = static_cast<V>(static_cast<uint64_t>(a) ^ uint64_t(1) << r.below(sizeof(V) * 8));
    }
    else if (how == 2)
    {
        b = static_cast<V>(static_cast<uint64_t>(a) + 1);
    }
    else if (how == 3)
    {
        b = static_cast<V>(r.next());
    }
    const bool same = a == b;
    const std::string what = vh::str(name, " ", static_cast<int64_t>(a), " and ", static_cast<int64_t>(b));
    const T x(a);
    const T y(b);
    expectEqual(c, zserio::reflectable(x), zserio::reflectable(y), same, what);
    const size_t n = 1 + r.below(6);
    const size_t at = r.below(n);
    zserio::Vector<T> p;
    for (size_t i = 0; i < n; ++i)
    {
        p.emplace_back(static_cast<V>(r.next()));
    }
    zserio::Vector<T> q = p;
    p[at] = x;
    q[at] = y;
    expectEqual(c, zserio::reflectableArray(p), zserio::reflectableArray(q), same, vh::str(what, " at ", at, " of ", n));
    q[at] = x;
    if (r.flip())
    {
        q.push_back(r.flip() ? T(V{}) : x);
        expectEqual(c, zserio::reflectableArray(p), zserio::reflectableArray(q), false, vh::str(what, " longer than ", n));
    }
}
static void near(vh::Case& c)
{
    vh::Rng& r = c.rng;
    nearNumbers<zserio::UInt8>(c, "uint8");
    nearNumbers<zserio::UInt16>(c, "uint16");
    nearNumbers<zserio::UInt32>(c, "uint32");
    nearNumbers<zserio::UInt64>(c, "uint64");
    nearNumbers<zserio::UInt<57>>(c, "bit:57");
    nearNumbers<zserio::Int8>(c, "int8");
    nearNumbers<zserio::Int16>(c, "int16");
    nearNumbers<zserio::Int32>(c, "int32");
    nearNumbers<zserio::Int64>(c, "int64");
    nearNumbers<zserio::Int<40>>(c, "int:40");
    nearNumbers<zserio::VarInt>(c, "varint");
    nearNumbers<zserio::VarUInt>(c, "varuint");
    nearNumbers<zserio::VarInt64>(c, "varint64");
    nearNumbers<zserio::VarUInt64>(c, "varuint64");
    nearNumbers<zserio::VarSize>(c, "varsize");
    nearNumbers<zserio::DynUInt64>(c, "dynuint64");
    // texts, bytes and bits which differ in one place or in their length
    const std::string s = r.bytes(r.below(12));
    std::string t = s;
    const unsigned how = static_cast<unsigned>(r.below(4));
    if (how == 1 && !t.empty())
    {
        const size_t i = r.below(t.size());
        t[i] = static_cast<char>(t[i] ^ 1 << r.below(8));
    }
    else if (how == 2)
    {
        t += r.flip() ? std::string(1, '\0') : r.bytes(1 + r.below(3));
    }
    else if (how == 3 && !t.empty())
    {
        t.pop_back();
    }
    const bool same = s == t;
    const zserio::String s1(s);
    const zserio::String s2(t);
    const std::string what = vh::str(vh::hex(s.data(), s.size()), " and ", vh::hex(t.data(), t.size()));
    expectEqual(c, zserio::reflectable(s1), zserio::reflectable(s2), same, "text " + what);
    const zserio::Bytes b1(s.begin(), s.end());
    const zserio::Bytes b2(t.begin(), t.end());
    expectEqual(c, zserio::reflectable(b1), zserio::reflectable(b2), same, "bytes " + what);
    const size_t n = b1.empty() ? 0 : b1.size() * 8 - r.below(8);
    const size_t m = b2.empty() ? 0 : (r.flip() ? b2.size() * 8 - r.below(8) : std::min(n, b2.size() * 8));
    const zserio::BitBuffer v1(b1, n);
    const zserio::BitBuffer v2(b2, m);
    bool sameBits = n == m;
    for (size_t i = 0; i < n && sameBits; ++i)
    {
        sameBits = ((b1[i / 8] ^ b2[i / 8]) >> (7 - i % 8) & 1) == 0;
    }
    expectEqual(c, zserio::reflectable(v1), zserio::reflectable(v2), sameBits, vh::str("bits ", what, " ", n, "/", m));
    const zserio::Vector<zserio::String> l1(1 + r.below(3), s1);
    zserio::Vector<zserio::String> l2 = l1;
    l2[r.below(l2.size())] = s2;
    expectEqual(c, zserio::reflectableArray(l1), zserio::reflectableArray(l2), same, vh::str("texts ", l1.size(), " ", what));
}
// values of different kinds are never equal
static void kinds(vh::Case& c)
{
    vh::Rng& r = c.rng;
    using Ptr = zserio::IReflectableDataConstPtr;
    static const zserio::String text("5");
    static const zserio::BitBuffer bits;
    static const zserio::Vector<zserio::UInt8> arr8{zserio::UInt8(1)};
    static const zserio::Vector<zserio::UInt8> arr8b{zserio::UInt8(1), zserio::UInt8(2)};
    static const zserio::Vector<zserio::UInt8> arr8c;
    const std::vector<Ptr> pool{nullptr, zserio::reflectable(zserio::UInt8(5)), zserio::reflectable(zserio::UInt16(5)),
            zserio::reflectable(zserio::UInt7(5)), zserio::reflectable(zserio::Int8(5)), zserio::reflectable(zserio::VarUInt16(5)),
            zserio::reflectable(zserio::VarSize(5)), zserio::reflectable(zserio::Float32(5)), zserio::reflectable(zserio::Float64(5)),
            zserio::reflectable(zserio::Float16(5)), zserio::reflectable(zserio::Bool(true)), zserio::reflectable(text),
            zserio::reflectable(bits), zserio::reflectableArray(arr8), zserio::reflectableArray(arr8b), zserio::reflectableArray(arr8c),
            zserio::reflectable(zserio::UInt8(1)), zserio::reflectable(zserio::UInt8(4))};
    const size_t i = r.below(pool.size());
    const size_t j = r.below(pool.size());
    c.check(zserio::ReflectableUtil::equal<std::allocator<uint8_t>>(pool[i], pool[j]) == (i == j), "kinds/equal", vh::str(i, " and ", j));
    c.distinct(i * 100 + j);
    c.count("pairs");
}

} // namespace c18

VH_SECTION(objects_std, 1500, 60000)
{
    c18::objects_std(c);
}
VH_SECTION(objects_pmr, 700, 30000)
{
    c18::objects_pmr(c);
}
VH_SECTION(objects_ppmr, 700, 30000)
{
    c18::objects_ppmr(c);
}
VH_SECTION(histories_std, 2500, 100000)
{
    c18::histories_std(c);
}
VH_SECTION(histories_pmr, 1200, 50000)
{
    c18::histories_pmr(c);
}
VH_SECTION(histories_ppmr, 1200, 50000)
{
    c18::histories_ppmr(c);
}
VH_SECTION(all_types_std, 400, 20000)
{
    c18::allTypes_std(c);
}
VH_SECTION(all_types_ppmr, 200, 10000)
{
    c18::allTypes_ppmr(c);
}
VH_SECTION(leaf_views_std, 150, 5000)
{
    c18::leafViews_std(c);
}
VH_SECTION(leaf_views_ppmr, 100, 4000)
{
    c18::leafViews_ppmr(c);
}
VH_SECTION(floats, 2000, 100000)
{
    c18::floats(c);
}
VH_SECTION(kinds, 1000, 10000)
{
    c18::kinds(c);
}
VH_SECTION(near, 400, 20000)
{
    c18::near(c);
}
