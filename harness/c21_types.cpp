// C21: values for enumerations and bitmasks of every underlying type, of hand-made type information (the generated types use few of them)
#include <map>

#include "vh.h"
#include "zserio/ReflectableData.h"
#include "zserio/TypeInfo.h"
#include "zserio/ZserioTreeCreator.h"

namespace
{
using A = std::allocator<uint8_t>;
using Any = zserio::BasicAny<A>;
using i128 = __int128;

struct Catch
{
    static const zserio::IBasicTypeInfo<A>* type;
    static std::vector<std::pair<std::string, Any>> got;
};
const zserio::IBasicTypeInfo<A>* Catch::type = nullptr;
std::vector<std::pair<std::string, Any>> Catch::got;

// keeps whatever it is given
class Probe : public zserio::detail::ReflectableDataAllocatorHolderBase<A>
{
public:
    using Base = zserio::detail::ReflectableDataAllocatorHolderBase<A>;
    explicit Probe(const A& allocator) :
            Base(*Catch::type, allocator)
    {}
    zserio::IBasicReflectableDataConstPtr<A> getField(std::string_view) const override
    {
        return nullptr;
    }
    zserio::IBasicReflectableDataPtr<A> getField(std::string_view) override
    {
        return nullptr;
    }
    zserio::IBasicReflectableDataPtr<A> createField(std::string_view) override
    {
        return nullptr;
    }
    void setField(std::string_view name, const Any& value) override
    {
        Catch::got.emplace_back(std::string(name), value);
    }
    Any getAnyValue(const A& allocator) const override
    {
        return Any(allocator);
    }
    Any getAnyValue(const A& allocator) override
    {
        return Any(allocator);
    }
};

zserio::IBasicReflectableDataPtr<A> makeProbe(const A& allocator)
{
    return std::make_shared<Probe>(allocator);
}

struct Under
{
    const zserio::IBasicTypeInfo<A>* info;
    int bits; // of the C++ type
    bool isSigned;
};

const std::vector<Under>& unders()
{
    static const std::vector<Under> u = {{&zserio::typeInfo<zserio::UInt8, A>(), 8, false}, {&zserio::typeInfo<zserio::UInt16, A>(), 16, false},
            {&zserio::typeInfo<zserio::UInt32, A>(), 32, false}, {&zserio::typeInfo<zserio::UInt64, A>(), 64, false}, {&zserio::typeInfo<zserio::Int8, A>(), 8, true},
            {&zserio::typeInfo<zserio::Int16, A>(), 16, true}, {&zserio::typeInfo<zserio::Int32, A>(), 32, true}, {&zserio::typeInfo<zserio::Int64, A>(), 64, true},
            {&zserio::typeInfo<zserio::UInt5, A>(), 8, false}, {&zserio::typeInfo<zserio::Int5, A>(), 8, true}, {&zserio::typeInfo<zserio::UInt31, A>(), 32, false},
            {&zserio::typeInfo<zserio::Int57, A>(), 64, true}, {&zserio::typeInfo<zserio::UInt57, A>(), 64, false}, {&zserio::typeInfo<zserio::VarUInt, A>(), 64, false},
            {&zserio::typeInfo<zserio::VarInt, A>(), 64, true}, {&zserio::typeInfo<zserio::VarInt16, A>(), 16, true}, {&zserio::typeInfo<zserio::VarSize, A>(), 32, false},
            {&zserio::typeInfo<zserio::VarUInt32, A>(), 32, false}};
    return u;
}

i128 lowest(const Under& u)
{
    return u.isSigned ? -(static_cast<i128>(1) << (u.bits - 1)) : 0;
}
i128 highest(const Under& u)
{
    return (static_cast<i128>(1) << (u.isSigned ? u.bits - 1 : u.bits)) - 1;
}
std::string num(i128 x)
{
    if (x < 0)
    {
        return "-" + num(-x);
    }
    std::string s;
    do
    {
        s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(x % 10)));
        x /= 10;
    } while (x != 0);
    return s;
}

// the value of the any if it is of the C++ type of the underlying type
bool valueOf(const Under& u, const Any& any, i128& out)
{
    bool ok = false;
    const auto as = [&](auto t) {
        using T = decltype(t);
        if (any.template isType<T>())
        {
            ok = true;
            out = any.template get<T>();
        }
    };
    switch (u.bits + (u.isSigned ? 1 : 0))
    {
    case 8: as(uint8_t()); break;
    case 9: as(int8_t()); break;
    case 16: as(uint16_t()); break;
    case 17: as(int16_t()); break;
    case 32: as(uint32_t()); break;
    case 33: as(int32_t()); break;
    case 64: as(uint64_t()); break;
    default: as(int64_t()); break;
    }
    return ok;
}

i128 someValue(vh::Rng& r, const Under& u)
{
    switch (r.below(5))
    {
    case 0:
        return lowest(u) + static_cast<i128>(r.below(3));
    case 1:
        return highest(u) - static_cast<i128>(r.below(3));
    case 2:
        return u.isSigned ? static_cast<i128>(r.range(-3, 3)) : static_cast<i128>(r.below(5));
    case 3:
        return static_cast<i128>(1) << r.below(static_cast<uint64_t>(u.isSigned ? u.bits - 1 : u.bits));
    default:
    {
        const i128 x = static_cast<i128>(r.next());
        const i128 span = highest(u) - lowest(u) + 1;
        return lowest(u) + x % span;
    }
    }
}
} // namespace

VH_SECTION(type_infos, 6000, 300000)
{
    vh::Rng& r = c.rng;
    const Under& u = unders()[r.below(unders().size())];
    const bool mask = !u.isSigned && r.flip();
    static const char* pool[] = {"A", "AB", "A_B", "B", "READ", "READX", "READ_WRITE", "WRITE", "_x", "x", "none", "NONE", "a1", "a10", "Longer_Name_Of_An_Item_0123456789"};
    std::vector<std::string> names;
    for (const char* n : pool)
    {
        if (r.chance(40))
        {
            names.push_back(n);
        }
    }
    if (r.flip())
    {
        std::reverse(names.begin(), names.end());
    }
    std::vector<zserio::ItemInfo> items;
    std::map<std::string, i128> values;
    std::string what = std::string(mask ? "bitmask" : "enum") + " on " + std::string(u.info->getSchemaName()) + "{";
    for (const auto& n : names)
    {
        const i128 v = someValue(r, u);
        values[n] = v;
        items.emplace_back(n, static_cast<uint64_t>(v), r.chance(10), r.chance(10));
        what += n + "=" + num(v) + ",";
    }
    what += "}";
    c.trace(what);
    const zserio::detail::EnumTypeInfo<A> enumInfo("probe.E", *u.info, items);
    const zserio::detail::BitmaskTypeInfo<A> maskInfo("probe.M", *u.info, items);
    const zserio::IBasicTypeInfo<A>& fieldType = mask ? static_cast<const zserio::IBasicTypeInfo<A>&>(maskInfo) : enumInfo;
    const std::vector<zserio::BasicFieldInfo<A>> fields = {{"f", fieldType, {}, false, {}, {}, {}, false, {}, {}, false, {}, false, false}};
    const zserio::detail::StructTypeInfo<A> info("probe.S", &makeProbe, "", {}, fields, {}, {});
    Catch::type = &info;
    Catch::got.clear();

    zserio::BasicZserioTreeCreator<A> creator(info);
    creator.beginRoot();
    for (uint64_t n = 1 + r.below(6); n > 0; --n)
    {
        bool ok = false;
        i128 want = 0;
        std::string arg;
        const size_t before = Catch::got.size();
        std::string lastError;
        const auto set = [&](auto&& v) {
            try
            {
                creator.setValue("f", v);
                return true;
            }
            catch (const zserio::CppRuntimeException& e)
            {
                lastError = e.what();
                return false;
            }
        };
        bool took = false;
        if (r.chance(70))
        {
            const auto name = [&]() -> std::string {
                return r.chance(90) && !names.empty() ? r.pick(names) : std::string(pool[r.below(sizeof pool / sizeof *pool)]);
            };
            bool judge = true;
            switch (r.below(8))
            {
            case 0: // a number: of use for bitmasks only
            {
                i128 x = someValue(r, unders()[r.below(unders().size())]);
                if (r.chance(25))
                {
                    x = highest(u) + static_cast<i128>(r.below(3));
                }
                if (r.chance(15))
                {
                    x = (static_cast<i128>(UINT64_MAX) + 1) * static_cast<i128>(1 + r.below(1000)) + static_cast<i128>(r.below(3));
                }
                if (x < 0)
                {
                    x = -x;
                }
                arg = num(x);
                if (r.chance(20))
                {
                    arg += " /* no match */";
                }
                ok = mask && x <= highest(u);
                want = x;
                break;
            }
            case 1: // almost a name
            {
                arg = name();
                static const char* after[] = {"|", " |", " ", "  | ", ",", ";", "X", "_", "1", "||", "\n", ".x"};
                static const char* first[] = {" ", "|", ",", "-", "0x", "$"};
                if (r.flip())
                {
                    arg += r.pick(after);
                }
                else
                {
                    arg = r.pick(first) + arg;
                }
                if (arg[0] == '0')
                {
                    judge = false; // 0 followed by text
                }
                ok = values.count(arg) != 0;
                if (ok)
                {
                    want = values[arg];
                }
                break;
            }
            default:
            {
                arg = name();
                ok = values.count(arg) != 0;
                want = ok ? values[arg] : 0;
                if (mask)
                {
                    for (uint64_t k = r.below(4); k > 0; --k)
                    {
                        static const char* bars[] = {" | ", "|", " |", "| ", "   |  "};
                        const std::string other = name();
                        arg += r.pick(bars) + other;
                        ok = ok && values.count(other) != 0;
                        want |= values.count(other) != 0 ? values[other] : 0;
                    }
                }
                break;
            }
            }
            switch (r.below(3))
            {
            case 0:
                took = set(std::string_view(arg));
                break;
            case 1:
                took = set(zserio::BasicString<zserio::RebindAlloc<A, char>>(arg));
                break;
            default:
                took = set(arg.c_str());
                break;
            }
            arg = "'" + arg + "'";
            if (!judge)
            {
                c.count("unjudged");
                continue;
            }
            c.count(ok ? (mask ? "mask_texts" : "enum_texts") : "refused_texts");
        }
        else
        {
            const Under& from = unders()[r.below(unders().size())];
            const i128 x = r.chance(30) ? (r.flip() ? highest(u) + static_cast<i128>(r.below(2)) : lowest(u) - static_cast<i128>(r.below(2))) : someValue(r, from);
            arg = num(x);
            if (x >= INT8_MIN && x <= INT8_MAX && r.chance(25))
            {
                took = set(static_cast<int8_t>(x));
            }
            else if (x >= 0 && x <= UINT32_MAX && r.chance(25))
            {
                took = set(static_cast<uint32_t>(x));
            }
            else if (x >= INT64_MIN && x <= INT64_MAX && (x < 0 || r.flip()))
            {
                took = set(static_cast<int64_t>(x));
            }
            else if (x >= 0 && x <= static_cast<i128>(UINT64_MAX))
            {
                took = set(static_cast<uint64_t>(x));
            }
            else
            {
                continue; // not a number of any C++ type
            }
            ok = x >= lowest(u) && x <= highest(u);
            want = x;
            c.count(ok ? "numbers" : "refused_numbers");
        }
        VH_EQ(c, took, ok, "accepted", what + " " + arg + " " + lastError);
        VH_EQ(c, Catch::got.size(), before + (took ? 1 : 0), "fields-set", what + " " + arg);
        if (took && ok && Catch::got.size() == before + 1)
        {
            i128 v = 0;
            const bool typed = valueOf(u, Catch::got.back().second, v);
            VH_CHECK(c, typed, "value-type", what + " " + arg);
            VH_CHECK(c, !typed || v == want, "value", what + " " + arg + " gives " + num(v) + " expected " + num(want));
            VH_CHECK(c, Catch::got.back().first == "f", "field-name", Catch::got.back().first);
            c.distinct(what + arg);
        }
    }
    const auto done = creator.endRoot();
    VH_CHECK(c, done != nullptr, "no-object", what);
}
