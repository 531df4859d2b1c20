#include "c16.h"
#include "tobj_std.h"

static tobj::Node gen(vh::Case& c, uint64_t type, bool anyMask)
{
    tobj::Gen g(c.rng, c.rng.chance(25) ? tobj::Gen::ANY : tobj::Gen::UTF8, c.rng.chance(3) ? 40 : 4, 14);
    tobj::Node n;
    tobj::std_allocator::withAnyType(type, [&](auto*, auto f) { n = f(g); });
    if (anyMask)
    {
        // bitmask values with bits which have no name
        const std::function<void(tobj::Node&)> rec = [&](tobj::Node& k) {
            if (k.kind == tobj::Node::MASK)
            {
                k.num = static_cast<ref::i128>(c.rng.ubits(8));
            }
            for (auto& e : k.kids)
            {
                rec(e);
            }
        };
        rec(n);
    }
    return n;
}

VH_SECTION(objects, 15 * 110, 15 * 6000)
{
    const uint64_t type = c.idx % 15;
    const tobj::Node n = gen(c, type, c.rng.flip());
    c.trace(n.text());
    switch (c.idx / 15 % 3)
    {
    case 0:
        c16::node_std(c, type, n);
        break;
    case 1:
        c16::node_pmr(c, type, n);
        break;
    default:
        c16::node_ppmr(c, type, n);
        break;
    }
    c.count("objects");
    c.distinct(n.hash());
    if (c.wantSample())
    {
        c.sample(n.text(300));
    }
}

// every built-in type, as field, optional field, array and optional array
VH_SECTION(all_types, 700, 40000)
{
    static const unsigned percents[] = {100, 30, 5, 0};
    const unsigned percent = percents[c.idx % (c.idx < 8 ? 4 : 3)];
    if (c.idx % 2 == 0)
    {
        c16::all_std(c, percent);
    }
    else
    {
        c16::all_ppmr(c, percent);
    }
}

// strings of all lengths around the chunks in which the input is read
VH_SECTION(long_strings, 60, 3000)
{
    tobj::Node n;
    const size_t chunk = 64 * 1024;
    const size_t len = c.idx % 3 == 0 ? c.rng.below(300) : chunk - 40 + c.rng.below(80) + (c.rng.flip() ? chunk : 0);
    std::string s = c.rng.flip() ? c.rng.bytes(len) : std::string(len, "x\\\"\n"[c.rng.below(4)]);
    if (!s.empty())
    {
        s[c.rng.below(s.size())] = "\"\\\n\x01/u"[c.rng.below(6)];
    }
    n = tobj::mkObj("DebugStringObject", {tobj::named("text", tobj::mkStr(s))});
    c.trace(vh::str("length ", len));
    switch (c.idx % 3)
    {
    case 0:
        c16::node_pmr(c, 8, n);
        break;
    default:
        c16::node_std(c, 8, n);
        break;
    }
    c.count("objects");
}

#include "test_object/std_allocator/CreatorUnsignedEnum.h"
#include "test_object/std_allocator/ReflectableBitmask.h"
#include "zserio/JsonWriter.h"

namespace
{

// any stored value of an enumeration or of a bitmask, named or not
template <typename T>
void enumerable(vh::Case& c, const std::vector<std::pair<std::string, int64_t>>& names, bool bitmask)
{
    using U = std::underlying_type_t<std::conditional_t<std::is_enum_v<T>, T, std::byte>>;
    T value{};
    int64_t num = 0;
    if constexpr (std::is_enum_v<T>)
    {
        const U raw = c.rng.flip() ? static_cast<U>(c.rng.pick(names).second) : static_cast<U>(c.rng.next());
        value = static_cast<T>(raw);
        num = static_cast<int64_t>(raw);
    }
    else
    {
        const auto raw = static_cast<typename T::ZserioType::ValueType>(c.rng.next());
        value = T(raw);
        num = static_cast<int64_t>(raw);
    }
    const auto data = zserio::reflectable(value);
    const auto& field = zserio::typeInfo<test_object::std_allocator::CreatorObject>().getFields()[0];
    for (const bool numbers : {false, true})
    {
        std::ostringstream os;
        zserio::JsonWriter w(os);
        w.setEnumerableFormat(numbers ? zserio::JsonWriter::EnumerableFormat::NUMBER : zserio::JsonWriter::EnumerableFormat::STRING);
        w.visitValue(data, field, 0);
        std::string want;
        bool named = false;
        for (const auto& n : names)
        {
            if (n.second == num && !bitmask)
            {
                want = "\"" + n.first + "\"";
                named = true;
            }
        }
        if (numbers)
        {
            want = std::to_string(num);
        }
        else if (bitmask)
        {
            want = "\"" + c16::maskText(static_cast<uint64_t>(num), names) + "\"";
        }
        else if (!named)
        {
            want = "\"" + std::to_string(num) + " /* no match */\"";
            c.count("unnamed");
        }
        c.check(os.str() == want, "enumerable", vh::str("got ", os.str(), " expected ", want));
    }
    c.count("values");
    c.distinct(vh::mix(static_cast<uint64_t>(num), vh::hashStr(typeid(T).name())));
}

} // namespace

VH_SECTION(enumerables, 1000, 20000)
{
    namespace O = test_object::std_allocator;
    switch (c.idx % 7)
    {
    case 0:
        enumerable<O::CreatorEnum>(c, c16::items("CreatorEnum"), false);
        break;
    case 1:
        enumerable<O::ReflectableEnum>(c, c16::items("ReflectableEnum"), false);
        break;
    case 2:
        enumerable<O::ReflectableUtilEnum>(c, c16::items("ReflectableUtilEnum"), false);
        break;
    case 3:
        enumerable<O::CreatorUnsignedEnum>(c, {{"ONE", 0}, {"TWO", 1}}, false);
        break;
    case 4:
        enumerable<O::CreatorBitmask>(c, c16::items("CreatorBitmask"), true);
        break;
    case 5:
        enumerable<O::ReflectableBitmask>(c, c16::items("ReflectableBitmask"), true);
        break;
    default:
        enumerable<O::ReflectableUtilBitmask>(c, c16::items("ReflectableUtilBitmask"), true);
        break;
    }
}
