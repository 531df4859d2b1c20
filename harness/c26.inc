// included with TOBJ_NS and C26_FN(name) defined
#include <sstream>

#include "zserio/DebugStringUtil.h"
#include "zserio/IService.h"
#include "zserio/IntrospectableView.h"
#include "zserio/JsonReader.h"
#include "zserio/JsonWriter.h"
#include "zserio/ReflectableData.h"
#include "zserio/ReflectableUtil.h"
#include "zserio/SerializeUtil.h"
#include "zserio/TypeInfoUtil.h"
#include "zserio/Walker.h"
#include "zserio/ZserioTreeCreator.h"

namespace c26
{
namespace
{
namespace N = tobj::TOBJ_NS;
namespace O = ::test_object::TOBJ_NS;
using A = ::test_object::TOBJ_NS::CreatorNested::allocator_type;
using Str = zserio::BasicString<zserio::RebindAlloc<A, char>>;

template <typename B>
std::string hexOf(const B& b)
{
    return vh::str(b.getBitSize(), ":", vh::hex(b.getBuffer(), b.getByteSize()));
}
template <typename H>
std::string jsonOf(const H& h, typename zserio::BasicJsonWriter<A>::EnumerableFormat format)
{
    std::ostringstream os;
    zserio::BasicJsonWriter<A> w(os, 1);
    w.setEnumerableFormat(format);
    zserio::BasicWalker<A> walker(w);
    walker.walk(h);
    return os.str();
}

#include "show.inc"

// everything a type information says
inline void tell(const zserio::IBasicTypeInfo<A>& t, std::string& o, int depth)
{
    o += vh::str(t.getSchemaName(), " ", static_cast<int>(t.getSchemaType()), " ", static_cast<int>(t.getCppType()), "{");
    if (depth > 6)
    {
        o += "...}";
        return;
    }
    if (zserio::TypeInfoUtil::isFixedSize(t.getCppType()))
    {
        o += vh::str(static_cast<int>(t.getBitSize()), " ");
    }
    if (zserio::TypeInfoUtil::isCompound(t.getSchemaType()))
    {
        for (const auto& f : t.getFields())
        {
            o += vh::str(f.schemaName, " ", f.isOptional, f.isArray, f.isPacked, " ", f.constraint, " ");
            tell(f.typeInfo, o, depth + 1);
        }
        for (const auto& f : t.getParameters())
        {
            o += vh::str("(", f.schemaName, " ");
            tell(f.typeInfo, o, depth + 1);
        }
        for (const auto& f : t.getFunctions())
        {
            o += vh::str("[", f.schemaName, f.functionResult);
            tell(f.typeInfo, o, depth + 1);
        }
        if (zserio::TypeInfoUtil::hasChoice(t.getCppType()))
        {
            o += vh::str(t.getSelector());
            for (const auto& k : t.getCases())
            {
                o += vh::str(" case ", k.caseExpressions.size(), k.field != nullptr ? k.field->schemaName : "");
            }
        }
    }
    else if (t.getCppType() == zserio::CppType::ENUM)
    {
        for (const auto& i : t.getEnumItems())
        {
            o += vh::str(i.schemaName, i.value, " ");
        }
        tell(t.getUnderlyingType(), o, depth + 1);
    }
    else if (t.getCppType() == zserio::CppType::BITMASK)
    {
        for (const auto& i : t.getBitmaskValues())
        {
            o += vh::str(i.schemaName, i.value, " ");
        }
        tell(t.getUnderlyingType(), o, depth + 1);
    }
    o += "}";
}

template <typename T>
void objectOps(Plan& p, const tobj::Node& n, const tobj::Node& n2, bool warm)
{
    const std::string t = n.type + " ";
    const A alloc{};
    const auto a = p.own<T>(alloc);
    N::build(n, *a);
    const auto b = p.own<T>(alloc);
    N::build(n2, *b);
    const T& ca = *a;
    const T& cb = *b;
    const auto args = N::args(n, static_cast<T*>(nullptr));
    const auto bytes = tobj::encodeBytes(n);
    // a shared buffer with the encoded object
    tobj::Bits enc;
    tobj::encode(n, enc);
    const auto buf = p.own<zserio::BasicBitBuffer<A>>(zserio::Span<const uint8_t>(bytes), enc.size(), alloc);

    p.add(t + "hash", [&ca, &cb]() { return vh::str(std::hash<T>()(ca), std::hash<T>()(cb)); });
    p.add(t + "compare", [&ca, &cb]() { return vh::str(ca == cb, ca != cb, ca < cb, ca > cb, ca <= cb, ca >= cb, ca == ca); });
    p.add(t + "copy", [&ca, &cb]() {
        T c(ca);
        const bool eq = c == ca;
        c = cb;
        const T d(std::move(c));
        return vh::str(eq, d == cb, std::hash<T>()(d));
    });
    std::apply(
            [&](const auto&... v) {
                const auto view = p.own<zserio::View<T>>(ca, v...);
                const auto view2 = p.own<zserio::View<T>>(ca, v...);
                const auto dv = p.own<zserio::DataView<T>>(T(ca), v...);
                p.add(t + "view compare", [view, view2]() { return vh::str(*view == *view2, *view < *view2, std::hash<zserio::View<T>>()(*view)); });
                p.add(t + "serialize", [view]() { return hexOf(zserio::serialize(*view)); });
                p.add(t + "serialize data", [&ca, v...]() { return vh::str(zserio::serializeToBytes(ca, v...).size()); });
                p.add(t + "serialize data view", [dv]() { return hexOf(zserio::serialize(*dv)); });
                p.add(t + "measure", [view]() {
                    zserio::detail::validate(*view);
                    return vh::str(zserio::detail::bitSizeOf(*view, 0), " ", zserio::detail::bitSizeOf(*view, 5));
                });
                p.add(t + "deserialize", [buf, v...]() {
                    T o;
                    const auto got = zserio::deserialize(*buf, o, v...);
                    return vh::str(std::hash<zserio::View<T>>()(got), N::extract(o).text(100));
                });
                p.add(t + "data view", [buf, &ca, v...]() {
                    const auto got = zserio::deserialize<T>(*buf, v...);
                    const auto copy = got;
                    return vh::str(copy.zserioData() == ca, hexOf(zserio::serialize(copy)));
                });
                p.add(t + "cut data", [buf, v...]() {
                    std::string o;
                    for (size_t cut = 1; cut < 4; ++cut)
                    {
                        try
                        {
                            T x;
                            (void)zserio::deserializeFromBytes(buf->getData().first(buf->getData().size() * cut / 4), x, v...);
                            o += "read ";
                        }
                        catch (const zserio::CppRuntimeException& e)
                        {
                            o += e.what();
                        }
                    }
                    return o;
                });
                p.add(t + "introspect", [view]() {
                    const auto h = zserio::introspectable(*view, A());
                    return shown(h) + hexOf(h->serialize(A()));
                });
                if (warm)
                {
                    // shared introspectable view
                    const auto h = zserio::introspectable(*view, A());
                    p.add(t + "shared introspectable", [h]() {
                        std::string o = hexOf(h->serialize(A()));
                        for (const auto& f : h->getTypeInfo().getFields())
                        {
                            const auto g = h->find(f.schemaName);
                            o += vh::str(f.schemaName, g ? (g->isArray() ? static_cast<int>(g->size()) : 1) : 0, " ");
                        }
                        return o + shown(h);
                    });
                }
            },
            args);
    p.add(t + "json", [&ca]() { return jsonOf(zserio::reflectable(ca, A()), zserio::BasicJsonWriter<A>::EnumerableFormat::STRING); });
    p.add(t + "debug string", [&cb]() {
        const auto s = zserio::toJsonString(cb);
        return std::string(s.data(), s.size());
    });
    p.add(t + "json read", [&ca]() {
        const auto s = zserio::toJsonString(ca);
        const T back = zserio::fromJsonString<T>(s);
        return vh::str(back == ca, std::hash<T>()(back));
    });
    p.add(t + "own reflection", [&ca]() {
        T c(ca);
        const auto h = zserio::reflectable(c);
        std::string o = vh::str(zserio::ReflectableUtil::equal<A>(h, zserio::reflectable(ca, A())));
        const auto made = h->getTypeInfo().createInstance();
        return o + jsonOf(zserio::IBasicReflectableDataConstPtr<A>(made), zserio::BasicJsonWriter<A>::EnumerableFormat::STRING);
    });
    p.add(t + "type information", []() {
        std::string o;
        tell(zserio::typeInfo<T, A>(), o, 0);
        return o;
    });
    if (warm)
    {
        const auto h = zserio::reflectable(ca, A());
        p.add(t + "shared reflectable", [h, &ca]() {
            std::string o = vh::str(&zserio::ReflectableUtil::getValue<T, A>(h) == &ca);
            for (const auto& f : h->getTypeInfo().getFields())
            {
                const auto g = h->find(f.schemaName);
                o += vh::str(f.schemaName, g ? (g->isArray() ? static_cast<int>(g->size()) : 1) : 0, " ");
            }
            return o + jsonOf(h, zserio::BasicJsonWriter<A>::EnumerableFormat::STRING);
        });
        const auto owner = h->getTypeInfo().createInstance();
        const zserio::IBasicReflectableDataConstPtr<A> constOwner(owner);
        p.add(t + "shared owner", [constOwner]() { return jsonOf(constOwner, zserio::BasicJsonWriter<A>::EnumerableFormat::NUMBER); });
    }
    // service data of an object without parameters
    if constexpr (std::tuple_size_v<std::decay_t<decltype(args)>> == 0)
    {
        const auto raw = p.own<zserio::BasicObjectServiceData<A>>(ca);
        p.add(t + "service data", [raw]() {
            const auto d = raw->getData();
            return vh::str(raw->getIntrospectable() == nullptr, vh::hex(d.data(), d.size()));
        });
        if (warm)
        {
            const auto intro = p.own<zserio::BasicIntrospectableServiceData<T, A>>(ca);
            p.add(t + "introspectable service data", [intro]() {
                const auto d = intro->getData();
                const auto h = intro->getIntrospectable();
                return vh::hex(d.data(), d.size()) + shown(h);
            });
        }
    }
}

template <typename T>
void info(Plan& p, const std::string& name)
{
    p.add("type information " + name, []() {
        std::string o;
        tell(zserio::typeInfo<T, A>(), o, 0);
        return o;
    });
}

} // namespace

void C26_FN(objectOps)(Plan& p, vh::Rng& r, bool warm, uint64_t type)
{
    tobj::Gen g(r, tobj::Gen::UTF8, 5, 20);
    N::withAnyType(type, [&](auto* t, auto gen) {
        using T = std::remove_pointer_t<decltype(t)>;
        const tobj::Node n = gen(g);
        objectOps<T>(p, n, r.flip() ? n : gen(g), warm);
    });
}

void C26_FN(typeInfoOps)(Plan& p, vh::Rng& r, bool, uint64_t)
{
    using namespace zserio;
    info<Bool>(p, "bool");
    info<Int8>(p, "int8");
    info<Int16>(p, "int16");
    info<Int32>(p, "int32");
    info<Int64>(p, "int64");
    info<UInt8>(p, "uint8");
    info<UInt16>(p, "uint16");
    info<UInt32>(p, "uint32");
    info<UInt64>(p, "uint64");
    info<Int5>(p, "int5");
    info<Int<13>>(p, "int13");
    info<UInt7>(p, "uint7");
    info<UInt<33>>(p, "uint33");
    info<DynInt8>(p, "dynInt8");
    info<DynInt64>(p, "dynInt64");
    info<DynUInt16>(p, "dynUInt16");
    info<DynUInt64>(p, "dynUInt64");
    
    info<VarInt16>(p, "varint16");
    info<VarInt32>(p, "varint32");
    info<VarInt64>(p, "varint64");
    info<VarInt>(p, "varint");
    info<VarUInt16>(p, "varuint16");
    info<VarUInt32>(p, "varuint32");
    info<VarUInt64>(p, "varuint64");
    info<VarUInt>(p, "varuint");
    info<VarSize>(p, "varsize");
    info<Float16>(p, "float16");
    info<Float32>(p, "float32");
    info<Float64>(p, "float64");
    info<Str>(p, "string");
    info<BasicBytes<A>>(p, "bytes");
    info<BasicBitBuffer<A>>(p, "bits");
    info<O::CreatorEnum>(p, "CreatorEnum");
    info<O::CreatorBitmask>(p, "CreatorBitmask");
    info<O::ReflectableEnum>(p, "ReflectableEnum");
    info<O::WalkerObject>(p, "WalkerObject");
    info<O::CreatorObject>(p, "CreatorObject");
    info<O::ReflectableObject>(p, "ReflectableObject");
    const int8_t e = static_cast<int8_t>(static_cast<int>(r.below(3)) - 1);
    p.add("enum", [e]() {
        const auto v = zserio::valueToEnum<O::CreatorEnum>(e);
        const auto s = zserio::enumToString(v);
        return vh::str(s, zserio::enumToOrdinal(v), zserio::stringToEnum<O::CreatorEnum>(s) == v,
                jsonOf(zserio::reflectable(v, A()), zserio::BasicJsonWriter<A>::EnumerableFormat::STRING));
    });
    const uint8_t m = static_cast<uint8_t>(r.below(4));
    p.add("bitmask", [m]() {
        const O::CreatorBitmask v{zserio::UInt8(m)};
        const auto s = v.toString(A());
        return vh::str(std::string(s.data(), s.size()), v.getValue(), std::hash<O::CreatorBitmask>()(v | O::CreatorBitmask::Values::READ),
                jsonOf(zserio::reflectable(v, A()), zserio::BasicJsonWriter<A>::EnumerableFormat::STRING));
    });
    const uint64_t num = r.next();
    p.add("reflectable numbers", [num]() {
        const zserio::Int64 i(static_cast<int64_t>(num));
        const zserio::VarUInt32 u(static_cast<uint32_t>(num & 0xfffffffU));
        const zserio::Float64 d(static_cast<double>(num) / 8);
        std::string o;
        const auto one = [&](const auto& h) {
            const auto s = h->toString();
            o += std::string(s.data(), s.size()) + " " + std::string(h->getTypeInfo().getSchemaName()) + " ";
        };
        one(zserio::reflectable(i, A()));
        one(zserio::reflectable(u, A()));
        o += vh::str(zserio::reflectable(d, A())->toDouble());
        return o;
    });
    p.add("creator", [num]() {
        zserio::BasicZserioTreeCreator<A> creator(zserio::typeInfo<O::CreatorNested, A>());
        creator.beginRoot();
        creator.setValue("value", static_cast<uint32_t>(num));
        creator.setValue("text", vh::str(num));
        std::string o;
        try
        {
            creator.setValue("nosuch", 1);
        }
        catch (const zserio::CppRuntimeException& x)
        {
            o = x.what();
        }
        const auto h = creator.endRoot();
        return o + jsonOf(zserio::IBasicReflectableDataConstPtr<A>(h->getField("text")), zserio::BasicJsonWriter<A>::EnumerableFormat::STRING);
    });
}

} // namespace c26
