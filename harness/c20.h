// Type information: facts computed from the types themselves compared with everything type information says.
#pragma once
#include <deque>
#include <functional>
#include <memory>
#include <thread>

#include "c18.h"
#include "zserio/TypeInfo.h"
#include "zserio/TypeInfoUtil.h"

namespace c20
{
using zserio::CppType;
using zserio::SchemaType;

enum Query
{
    Q_BIT_SIZE,
    Q_FIELDS,
    Q_PARAMETERS,
    Q_FUNCTIONS,
    Q_SELECTOR,
    Q_CASES,
    Q_UNDERLYING,
    Q_ENUM_ITEMS,
    Q_BITMASK_VALUES,
    Q_COLUMNS,
    Q_SQL_CONSTRAINT,
    Q_VIRTUAL_USING,
    Q_WITHOUT_ROWID,
    Q_TABLES,
    Q_TEMPLATE_NAME,
    Q_TEMPLATE_ARGS,
    Q_MESSAGES,
    Q_METHODS,
    Q_CREATE,
    Q_CREATE_ALLOC,
    QUERIES
};
constexpr unsigned bit(Query q)
{
    return 1U << q;
}
constexpr unsigned COMPOUND = bit(Q_FIELDS) | bit(Q_PARAMETERS) | bit(Q_FUNCTIONS) | bit(Q_TEMPLATE_NAME) | bit(Q_TEMPLATE_ARGS) | bit(Q_CREATE) |
        bit(Q_CREATE_ALLOC);

inline const char* queryName(int q)
{
    static const char* const names[] = {"getBitSize", "getFields", "getParameters", "getFunctions", "getSelector", "getCases", "getUnderlyingType",
            "getEnumItems", "getBitmaskValues", "getColumns", "getSqlConstraint", "getVirtualTableUsing", "isWithoutRowId", "getTables",
            "getTemplateName", "getTemplateArguments", "getMessages", "getMethods", "createInstance", "createInstance(allocator)"};
    return names[q];
}

template <typename A>
using TI = zserio::IBasicTypeInfo<A>;

template <typename A>
void ask(const TI<A>& ti, int q)
{
    switch (q)
    {
    case Q_BIT_SIZE:
        (void)ti.getBitSize();
        break;
    case Q_FIELDS:
        (void)ti.getFields();
        break;
    case Q_PARAMETERS:
        (void)ti.getParameters();
        break;
    case Q_FUNCTIONS:
        (void)ti.getFunctions();
        break;
    case Q_SELECTOR:
        (void)ti.getSelector();
        break;
    case Q_CASES:
        (void)ti.getCases();
        break;
    case Q_UNDERLYING:
        (void)ti.getUnderlyingType();
        break;
    case Q_ENUM_ITEMS:
        (void)ti.getEnumItems();
        break;
    case Q_BITMASK_VALUES:
        (void)ti.getBitmaskValues();
        break;
    case Q_COLUMNS:
        (void)ti.getColumns();
        break;
    case Q_SQL_CONSTRAINT:
        (void)ti.getSqlConstraint();
        break;
    case Q_VIRTUAL_USING:
        (void)ti.getVirtualTableUsing();
        break;
    case Q_WITHOUT_ROWID:
        (void)ti.isWithoutRowId();
        break;
    case Q_TABLES:
        (void)ti.getTables();
        break;
    case Q_TEMPLATE_NAME:
        (void)ti.getTemplateName();
        break;
    case Q_TEMPLATE_ARGS:
        (void)ti.getTemplateArguments();
        break;
    case Q_MESSAGES:
        (void)ti.getMessages();
        break;
    case Q_METHODS:
        (void)ti.getMethods();
        break;
    case Q_CREATE:
        (void)ti.createInstance();
        break;
    default:
        (void)ti.createInstance(A());
        break;
    }
}
// exactly the applicable queries work; the refusals name the type
template <typename A>
void applicable(vh::Case& c, const TI<A>& ti, unsigned mask, const std::string& what)
{
    for (int q = 0; q < QUERIES; ++q)
    {
        const bool want = (mask >> q & 1U) != 0;
        bool got = true;
        bool named = true;
        try
        {
            ask(ti, q);
        }
        catch (const zserio::CppRuntimeException& e)
        {
            got = false;
            named = std::string(e.what()).find(std::string(ti.getSchemaName())) != std::string::npos;
        }
        c.check(got == want, want ? "queries/refused" : "queries/answered", vh::str(what, " ", queryName(q)));
        c.check(named, "queries/message", vh::str(what, " ", queryName(q), ": the error does not name the type"));
        c.count(want ? "answered" : "refused");
    }
}

// one built-in type
template <typename A>
struct Built
{
    std::string name;
    SchemaType schema;
    CppType cpp;
    int bits; // of the encoding when it is the same for all values, otherwise -1
    bool integral;
    bool isSigned;
    bool floating;
    const TI<A>* ti;
    const TI<A>& (*get)();
    std::function<void(vh::Case&)> data; // against values of the type
};

template <typename V>
constexpr CppType cppOf()
{
    if (std::is_same_v<V, bool>)
    {
        return CppType::BOOL;
    }
    if (std::is_same_v<V, float>)
    {
        return CppType::FLOAT;
    }
    if (std::is_same_v<V, double>)
    {
        return CppType::DOUBLE;
    }
    const int k = sizeof(V) == 1 ? 0 : (sizeof(V) == 2 ? 1 : (sizeof(V) == 4 ? 2 : 3));
    return static_cast<CppType>(static_cast<int>(std::is_signed_v<V> ? CppType::INT8 : CppType::UINT8) + k);
}

template <typename A, typename T>
void numberData(vh::Case& c, const TI<A>& ti, int bits)
{
    using V = typename T::ValueType;
    vh::Rng& r = c.rng;
    V x;
    if constexpr (std::is_floating_point_v<V>)
    {
        x = static_cast<V>(r.sbits(20)) / 4;
    }
    else if constexpr (std::is_same_v<V, bool>)
    {
        x = r.flip();
    }
    else
    {
        const V lo = static_cast<V>(zserio::NumericLimits<T>::min());
        const V hi = static_cast<V>(zserio::NumericLimits<T>::max());
        // the announced limits are those of the announced size
        if (bits > 0)
        {
            const ref::i128 one = 1;
            const ref::i128 wantHi = std::is_signed_v<V> ? (one << (bits - 1)) - 1 : (one << bits) - 1;
            const ref::i128 wantLo = std::is_signed_v<V> ? -(one << (bits - 1)) : 0;
            c.check(lo == wantLo && hi == wantHi, "builtin/limits", vh::str(std::string(ti.getSchemaName())));
        }
        const uint64_t range = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo);
        const uint64_t step = range == ~0ULL ? r.ubits(64) : r.ubits(64) % (range + 1);
        x = r.chance(20) ? lo : (r.chance(20) ? hi : static_cast<V>(static_cast<uint64_t>(lo) + step));
    }
    const T v(x);
    if (bits > 0)
    {
        zserio::BitBuffer b(bits + 100);
        zserio::BitStreamWriter w(b);
        const unsigned lead = static_cast<unsigned>(r.below(8));
        w.writeUnsignedBits32(lead > 0 ? 1 : 1, lead + 1);
        const auto from = w.getBitPosition();
        zserio::detail::write(w, v);
        c.check(w.getBitPosition() - from == static_cast<size_t>(bits), "builtin/written-size", vh::str(std::string(ti.getSchemaName()), " wrote ", w.getBitPosition() - from));
        c.check(zserio::detail::bitSizeOf(v, 0) == static_cast<size_t>(bits), "builtin/bit-size-of", std::string(ti.getSchemaName()));
    }
    c.check(&zserio::reflectable(v, A())->getTypeInfo() == &ti, "builtin/reflectable", std::string(ti.getSchemaName()));
}
template <typename A, typename T>
void dynData(vh::Case& c, const TI<A>& ti)
{
    const T v(static_cast<typename T::ValueType>(1));
    c.check(&zserio::reflectable(v, A())->getTypeInfo() == &ti, "builtin/reflectable", std::string(ti.getSchemaName()));
}
template <typename A, typename T>
void dataData(vh::Case& c, const TI<A>& ti)
{
    const T v{};
    c.check(&zserio::reflectable(v, A())->getTypeInfo() == &ti, "builtin/reflectable", std::string(ti.getSchemaName()));
}

template <typename A>
struct Builtins
{
    std::vector<Built<A>> all;

    template <typename T>
    void number(std::string name, SchemaType s, int bits)
    {
        using V = typename T::ValueType;
        const TI<A>& ti = zserio::typeInfo<T, A>();
        all.push_back({std::move(name), s, cppOf<V>(), bits, std::is_integral_v<V>,
                std::is_signed_v<V> || std::is_floating_point_v<V>, std::is_floating_point_v<V>, &ti, &zserio::typeInfo<T, A>,
                [&ti, bits](vh::Case& c) { numberData<A, T>(c, ti, bits); }});
    }
    template <typename T>
    void dyn()
    {
        using V = typename T::ValueType;
        const TI<A>& ti = zserio::typeInfo<T, A>();
        const bool s = std::is_signed_v<V>;
        all.push_back({s ? "int<>" : "bit<>", s ? SchemaType::DYNAMIC_SIGNED_BITFIELD : SchemaType::DYNAMIC_UNSIGNED_BITFIELD, cppOf<V>(), -1, true, s,
                false, &ti, &zserio::typeInfo<T, A>, [&ti](vh::Case& c) { dynData<A, T>(c, ti); }});
    }
    template <typename T>
    void data(std::string name, SchemaType s, CppType p)
    {
        const TI<A>& ti = zserio::typeInfo<T, A>();
        all.push_back({std::move(name), s, p, -1, false, false, false, &ti, &zserio::typeInfo<T, A>, [&ti](vh::Case& c) { dataData<A, T>(c, ti); }});
    }
    template <size_t... I>
    void fixed(std::index_sequence<I...>)
    {
        (number<zserio::detail::FixedIntWrapper<I + 1, true>>(vh::str("int:", I + 1),
                 static_cast<SchemaType>(static_cast<int>(SchemaType::INT1) + static_cast<int>(I)), static_cast<int>(I + 1)),
                ...);
        (number<zserio::detail::FixedIntWrapper<I + 1, false>>(vh::str("bit:", I + 1),
                 static_cast<SchemaType>(static_cast<int>(SchemaType::UINT1) + static_cast<int>(I)), static_cast<int>(I + 1)),
                ...);
    }

    Builtins()
    {
        using namespace zserio;
        fixed(std::make_index_sequence<64>());
        number<Bool>("bool", SchemaType::BOOL, 1);
        number<VarInt16>("varint16", SchemaType::VARINT16, -1);
        number<VarInt32>("varint32", SchemaType::VARINT32, -1);
        number<VarInt64>("varint64", SchemaType::VARINT64, -1);
        number<VarInt>("varint", SchemaType::VARINT, -1);
        number<VarUInt16>("varuint16", SchemaType::VARUINT16, -1);
        number<VarUInt32>("varuint32", SchemaType::VARUINT32, -1);
        number<VarUInt64>("varuint64", SchemaType::VARUINT64, -1);
        number<VarUInt>("varuint", SchemaType::VARUINT, -1);
        number<VarSize>("varsize", SchemaType::VARSIZE, -1);
        number<Float16>("float16", SchemaType::FLOAT16, 16);
        number<Float32>("float32", SchemaType::FLOAT32, 32);
        number<Float64>("float64", SchemaType::FLOAT64, 64);
        dyn<DynInt8>();
        dyn<DynInt16>();
        dyn<DynInt32>();
        dyn<DynInt64>();
        dyn<DynUInt8>();
        dyn<DynUInt16>();
        dyn<DynUInt32>();
        dyn<DynUInt64>();
        data<BasicBytes<A>>("bytes", SchemaType::BYTES, CppType::BYTES);
        data<BasicString<RebindAlloc<A, char>>>("string", SchemaType::STRING, CppType::STRING);
        data<BasicBitBuffer<A>>("extern", SchemaType::EXTERN, CppType::BIT_BUFFER);
        const TI<A>& sv = typeInfo<std::string_view, A>();
        all.push_back({"string", SchemaType::STRING, CppType::STRING, -1, false, false, false, &sv, &typeInfo<std::string_view, A>, [](vh::Case&) {}});
    }
};

template <typename A>
void builtin(vh::Case& c, const Built<A>& b)
{
    const TI<A>& ti = *b.ti;
    c.check(&b.get() == b.ti, "identity/builtin", b.name);
    c.check(ti.getSchemaName() == b.name, "builtin/name", vh::str(std::string(ti.getSchemaName()), " for ", b.name));
    c.check(ti.getSchemaType() == b.schema, "builtin/schema-type", vh::str(b.name, " ", static_cast<int>(ti.getSchemaType())));
    c.check(ti.getCppType() == b.cpp, "builtin/cpp-type", vh::str(b.name, " ", static_cast<int>(ti.getCppType())));
    applicable(c, ti, b.bits > 0 ? bit(Q_BIT_SIZE) : 0, b.name);
    if (b.bits > 0)
    {
        c.check(ti.getBitSize() == b.bits, "builtin/bit-size", vh::str(b.name, " ", static_cast<int>(ti.getBitSize())));
    }
    using U = zserio::TypeInfoUtil;
    c.check(U::isFixedSize(b.schema) == (b.bits > 0), "util/fixed-size", b.name);
    c.check(U::isIntegral(b.schema) == b.integral && U::isIntegral(b.cpp) == b.integral, "util/integral", b.name);
    c.check(U::isSigned(b.schema) == b.isSigned && U::isSigned(b.cpp) == b.isSigned, "util/signed", b.name);
    c.check(U::isFloatingPoint(b.schema) == b.floating && U::isFloatingPoint(b.cpp) == b.floating, "util/floating", b.name);
    c.check(!U::isCompound(b.schema) && !U::isCompound(b.cpp) && !U::hasChoice(b.schema) && !U::hasChoice(b.cpp), "util/compound", b.name);
    b.data(c);
    c.distinct(vh::hashStr(b.name) ^ static_cast<uint64_t>(b.cpp));
    c.count("builtin_types");
}

// values of the types without a built-in type behind
inline void utilities(vh::Case& c)
{
    using U = zserio::TypeInfoUtil;
    for (int i = static_cast<int>(SchemaType::EXTERN); i <= static_cast<int>(SchemaType::PUBSUB); ++i)
    {
        const auto s = static_cast<SchemaType>(i);
        const bool choice = s == SchemaType::CHOICE || s == SchemaType::UNION;
        c.check(!U::isFixedSize(s) && !U::isIntegral(s) && !U::isSigned(s) && !U::isFloatingPoint(s), "util/schema", vh::str(i));
        c.check(U::hasChoice(s) == choice && U::isCompound(s) == (choice || s == SchemaType::STRUCT), "util/schema-compound", vh::str(i));
    }
    for (int i = static_cast<int>(CppType::BOOL); i <= static_cast<int>(CppType::PUBSUB); ++i)
    {
        const auto s = static_cast<CppType>(i);
        const bool choice = s == CppType::CHOICE || s == CppType::UNION;
        const bool fp = s == CppType::FLOAT || s == CppType::DOUBLE;
        const bool in = i >= static_cast<int>(CppType::INT8) && i <= static_cast<int>(CppType::UINT64);
        c.check(U::isFixedSize(s) == (fp || in || s == CppType::BOOL), "util/cpp-fixed", vh::str(i));
        c.check(U::isIntegral(s) == (in || s == CppType::BOOL) && U::isFloatingPoint(s) == fp && U::isSigned(s) == (fp || (in && i <= static_cast<int>(CppType::INT64))), "util/cpp", vh::str(i));
        c.check(U::hasChoice(s) == choice && U::isCompound(s) == (choice || s == CppType::STRUCT), "util/cpp-compound", vh::str(i));
    }
    c.count("utility_tables");
}

// generated types ----------------------------------------------------------------------------------------------------
template <typename A>
struct FieldFact
{
    std::string name;
    const TI<A>* ti;
    bool isArray;
    bool isOptional;
};
template <typename M, typename A>
const TI<A>& elementInfo()
{
    if constexpr (c18::is_vec<M>)
    {
        return zserio::typeInfo<typename M::value_type, A>();
    }
    else
    {
        return zserio::typeInfo<M, A>();
    }
}
// fields of a generated type as declared in the schema
template <typename T, typename A>
void compound(vh::Case& c, const std::vector<FieldFact<A>>& facts, bool isChoice, bool isUnion, const std::string& name,
        const std::vector<std::string>& params, const std::vector<std::string>& functions)
{
    const TI<A>& ti = zserio::typeInfo<T, A>();
    c.check(&ti == &zserio::typeInfo<T, A>(), "identity/compound", name);
    const std::string full(ti.getSchemaName());
    c.check(full == "test_object." + name || full.substr(full.find_last_of('.') + 1) == name, "compound/name", full + " for " + name);
    c.check(ti.getSchemaType() == (isChoice ? SchemaType::CHOICE : (isUnion ? SchemaType::UNION : SchemaType::STRUCT)), "compound/schema-type", name);
    c.check(ti.getCppType() == (isChoice ? CppType::CHOICE : (isUnion ? CppType::UNION : CppType::STRUCT)), "compound/cpp-type", name);
    applicable(c, ti, COMPOUND | (isChoice ? bit(Q_SELECTOR) | bit(Q_CASES) : 0), name);
    const auto fields = ti.getFields();
    c.check(fields.size() == facts.size(), "compound/field-count", vh::str(name, " ", fields.size()));
    for (size_t i = 0; i < std::min(fields.size(), facts.size()); ++i)
    {
        const auto& f = fields[i];
        const auto& w = facts[i];
        c.check(f.schemaName == w.name, "field/name", vh::str(name, ".", w.name, ": ", std::string(f.schemaName)));
        c.check(&f.typeInfo == w.ti, "field/type", vh::str(name, ".", w.name));
        c.check(f.isArray == w.isArray, "field/array", vh::str(name, ".", w.name));
        c.check(f.isOptional == w.isOptional, "field/optional", vh::str(name, ".", w.name));
        c.check(!f.isPacked || f.isArray, "field/packed", vh::str(name, ".", w.name));
        c.check(!f.isImplicit || f.isArray, "field/implicit", vh::str(name, ".", w.name));
        c.check(f.isArray || f.arrayLength.empty(), "field/array-length", vh::str(name, ".", w.name));
        c.check(f.isOptional || f.optionalCondition.empty(), "field/optional-condition", vh::str(name, ".", w.name));
        c.count("fields");
    }
    const auto ps = ti.getParameters();
    c.check(ps.size() == params.size(), "compound/parameters", name);
    for (size_t i = 0; i < std::min(ps.size(), params.size()); ++i)
    {
        c.check(ps[i].schemaName == params[i], "parameter/name", vh::str(name, ".", params[i]));
        c.count("parameters");
    }
    const auto fs = ti.getFunctions();
    c.check(fs.size() == functions.size(), "compound/functions", name);
    for (size_t i = 0; i < std::min(fs.size(), functions.size()); ++i)
    {
        c.check(fs[i].schemaName == functions[i], "function/name", vh::str(name, ".", functions[i]));
        c.count("functions");
    }
    if (isChoice)
    {
        size_t n = 0;
        for (const auto& k : ti.getCases())
        {
            c.check(k.field == nullptr || (k.field >= fields.data() && k.field < fields.data() + fields.size()), "case/field", name);
            ++n;
        }
        c.check(n > 0 && !ti.getSelector().empty(), "choice/cases", name);
        c.count("choices");
    }
    const auto instance = ti.createInstance(A());
    c.check(instance != nullptr && &instance->getTypeInfo() == &ti, "compound/instance", name);
    const auto instance2 = ti.createInstance();
    c.check(instance2 != nullptr && &instance2->getTypeInfo() == &ti && instance != instance2, "compound/instance", name);
    c.distinct(vh::hashStr(name));
    c.count("compounds");
}

// what the field says is what the data shows
template <typename A>
void againstData(vh::Case& c, const zserio::IBasicReflectableData<A>& h, const std::string& path)
{
    const TI<A>& ti = h.getTypeInfo();
    if (h.isArray())
    {
        return;
    }
    if (!zserio::TypeInfoUtil::isCompound(ti.getSchemaType()))
    {
        return;
    }
    const bool choice = zserio::TypeInfoUtil::hasChoice(ti.getSchemaType());
    for (const auto& f : ti.getFields())
    {
        if (choice && h.getChoice() != f.schemaName)
        {
            continue;
        }
        const auto v = h.getField(f.schemaName);
        if (!v)
        {
            c.check(f.isOptional || zserio::TypeInfoUtil::isCompound(f.typeInfo.getSchemaType()), "data/null", path + "." + std::string(f.schemaName));
            continue;
        }
        c.check(v->isArray() == f.isArray, "data/array", path + "." + std::string(f.schemaName));
        c.check(&v->getTypeInfo() == &f.typeInfo, "data/type", path + "." + std::string(f.schemaName));
        c.count("data_fields");
        if (f.isArray)
        {
            for (size_t i = 0; i < v->size(); ++i)
            {
                const auto e = v->at(i);
                c.check(e && !e->isArray() && &e->getTypeInfo() == &f.typeInfo, "data/element", path + "." + std::string(f.schemaName));
                if (e)
                {
                    againstData<A>(c, *e, path + "." + std::string(f.schemaName));
                }
            }
        }
        else
        {
            againstData<A>(c, *v, path + "." + std::string(f.schemaName));
        }
    }
}

// enumerations and bitmasks
template <typename T, typename A>
void enumeration(vh::Case& c, const std::string& name)
{
    using Tr = zserio::EnumTraits<T>;
    using Z = typename Tr::ZserioType;
    using V = std::underlying_type_t<T>;
    const TI<A>& ti = zserio::typeInfo<T, A>();
    const std::string full(ti.getSchemaName());
    c.check(full.substr(full.find_last_of('.') + 1) == name && ti.getSchemaType() == SchemaType::ENUM && ti.getCppType() == CppType::ENUM, "enum/kind", name);
    applicable(c, ti, bit(Q_UNDERLYING) | bit(Q_ENUM_ITEMS), name);
    c.check(&ti.getUnderlyingType() == &zserio::typeInfo<Z, A>(), "enum/underlying", name);
    const auto items = ti.getEnumItems();
    c.check(items.size() == Tr::names.size() && items.size() == Tr::values.size(), "enum/count", name);
    for (size_t i = 0; i < std::min<size_t>(items.size(), Tr::values.size()); ++i)
    {
        const T v = Tr::values[i];
        c.check(items[i].schemaName == Tr::names[i], "enum/item-name", vh::str(name, " ", i));
        c.check(items[i].value == static_cast<uint64_t>(static_cast<V>(v)), "enum/item-value", vh::str(name, " ", i));
        c.check(zserio::enumToString(v) == items[i].schemaName && zserio::stringToEnum<T>(items[i].schemaName) == v, "enum/text", vh::str(name, " ", i));
        c.check(zserio::enumToOrdinal(v) == i, "enum/ordinal", vh::str(name, " ", i));
        const Z raw = zserio::enumToValue(v);
        c.check(static_cast<V>(raw) == static_cast<V>(v) && zserio::valueToEnum<T>(raw) == v, "enum/value", vh::str(name, " ", i));
        const auto h = zserio::reflectable(v, A());
        c.check(&h->getTypeInfo() == &ti && h->toString(A()) == items[i].schemaName, "enum/reflectable", vh::str(name, " ", i));
        // names which are not items
        const std::string bad[] = {std::string(items[i].schemaName) + "X", std::string(items[i].schemaName).substr(1), std::string(items[i].schemaName) + std::string(1, '\0'), ""};
        for (const std::string& b : bad)
        {
            bool item = false;
            for (const auto& n : Tr::names)
            {
                item = item || n == b;
            }
            c.check(item || c18::throwsRuntime([&]() { (void)zserio::stringToEnum<T>(b); }), "enum/unknown-text", vh::str(name, " '", b, "'"));
        }
        c.count("enum_items");
    }
    // values which are not items
    for (int i = 0; i < 20; ++i)
    {
        const V x = static_cast<V>(c.rng.ubits(8));
        bool item = false;
        for (const T v : Tr::values)
        {
            item = item || static_cast<V>(v) == x;
        }
        const bool refused = c18::throwsRuntime([&]() { (void)zserio::valueToEnum<T>(Z(x)); });
        c.check(refused != item, "enum/unknown-value", vh::str(name, " ", static_cast<int>(x)));
        c.count(item ? "enum_known" : "enum_unknown");
    }
    c.distinct(vh::hashStr(name));
}
template <typename T, typename A>
void bitmask(vh::Case& c, const std::string& name, const std::vector<std::pair<std::string, uint64_t>>& values)
{
    using Z = typename T::ZserioType;
    const TI<A>& ti = zserio::typeInfo<T, A>();
    const std::string full(ti.getSchemaName());
    c.check(full.substr(full.find_last_of('.') + 1) == name && ti.getSchemaType() == SchemaType::BITMASK && ti.getCppType() == CppType::BITMASK, "bitmask/kind", name);
    applicable(c, ti, bit(Q_UNDERLYING) | bit(Q_BITMASK_VALUES), name);
    c.check(&ti.getUnderlyingType() == &zserio::typeInfo<Z, A>(), "bitmask/underlying", name);
    const auto items = ti.getBitmaskValues();
    c.check(items.size() == values.size(), "bitmask/count", name);
    for (size_t i = 0; i < std::min(items.size(), values.size()); ++i)
    {
        c.check(items[i].schemaName == values[i].first && items[i].value == values[i].second, "bitmask/item", vh::str(name, " ", i));
        const T m{Z(static_cast<typename Z::ValueType>(items[i].value))};
        const auto h = zserio::reflectable(m, A());
        c.check(&h->getTypeInfo() == &ti && h->toUInt() == items[i].value, "bitmask/reflectable", name);
        const std::string text(h->toString(A()));
        c.check(text == vh::str(items[i].value, "[", values[i].first, "]"), "bitmask/text", text);
        c.count("bitmask_values");
    }
    c.distinct(vh::hashStr(name));
}

// type information made by hand: everything given is given back ----------------------------------------------------
template <typename A>
struct Made
{
    std::deque<std::string> text;
    std::deque<std::vector<std::string_view>> views;
    std::vector<zserio::BasicFieldInfo<A>> fields;
    std::vector<zserio::BasicParameterInfo<A>> parameters;
    std::vector<zserio::BasicFunctionInfo<A>> functions;
    std::vector<zserio::BasicCaseInfo<A>> cases;
    std::vector<zserio::BasicColumnInfo<A>> columns;
    std::vector<zserio::BasicTableInfo<A>> tables;
    std::vector<zserio::BasicTemplateArgumentInfo<A>> args;
    std::vector<zserio::BasicMessageInfo<A>> messages;
    std::vector<zserio::BasicMethodInfo<A>> methods;
    std::vector<zserio::ItemInfo> items;

    std::string_view str(vh::Rng& r)
    {
        std::string s;
        const size_t n = r.below(5) == 0 ? 0 : r.below(12);
        for (size_t i = 0; i < n; ++i)
        {
            s += static_cast<char>('a' + r.below(26));
        }
        text.push_back(s);
        return text.back();
    }
};
template <typename X>
bool sameSpan(zserio::Span<const X> s, const std::vector<X>& v)
{
    return s.size() == v.size() && (v.empty() || s.data() == v.data());
}

template <typename A>
using Create = zserio::IBasicReflectableDataPtr<A> (*)(const A&);

// the information for RecursiveTypeInfo, which takes a plain function
template <typename A>
const TI<A>*& current()
{
    static const TI<A>* p = nullptr;
    return p;
}
template <typename A>
const TI<A>& currentInfo()
{
    return *current<A>();
}

template <typename A>
void madeByHand(vh::Case& c, const Builtins<A>& bs, Create<A> create)
{
    vh::Rng& r = c.rng;
    Made<A> m;
    const auto someType = [&]() -> const TI<A>& { return *bs.all[r.below(bs.all.size())].ti; };
    const auto strings = [&]() {
        m.views.emplace_back();
        const size_t n = r.below(4);
        for (size_t i = 0; i < n; ++i)
        {
            m.views.back().push_back(m.str(r));
        }
        return zserio::Span<const std::string_view>(m.views.back().data(), m.views.back().size());
    };
    const std::string_view name = m.str(r);
    const std::string_view tname = m.str(r);
    const std::string_view s1 = m.str(r);
    const std::string_view s2 = m.str(r);
    const bool flag = r.flip();
    const size_t n = r.below(5);
    for (size_t i = 0; i < n; ++i)
    {
        m.args.push_back({someType()});
        m.fields.emplace_back(m.str(r), someType(), strings(), r.flip(), m.str(r), m.str(r), m.str(r), r.flip(), m.str(r), m.str(r), r.flip(), m.str(r), r.flip(), r.flip());
        m.parameters.push_back({m.str(r), someType()});
        m.functions.push_back({m.str(r), someType(), m.str(r)});
        m.columns.emplace_back(m.str(r), someType(), strings(), m.str(r), m.str(r), r.flip());
        m.tables.push_back({m.str(r), someType()});
        m.messages.emplace_back(m.str(r), someType(), r.flip(), r.flip(), m.str(r));
        m.methods.push_back({m.str(r), someType(), someType()});
        m.items.emplace_back(m.str(r), r.ubits(64), r.flip(), r.flip());
    }
    for (size_t i = 0; i < n; ++i)
    {
        m.cases.push_back({strings(), r.chance(30) ? nullptr : &m.fields[r.below(m.fields.size())]});
    }
    const auto span = [](const auto& v) { return zserio::Span<const typename std::decay_t<decltype(v)>::value_type>(v.data(), v.size()); };
    const TI<A>& under = someType();
    std::unique_ptr<TI<A>> made;
    unsigned mask = 0;
    SchemaType st = SchemaType::STRUCT;
    CppType ct = CppType::STRUCT;
    const size_t kind = r.below(9);
    const Create<A> cf = r.chance(20) ? nullptr : create;
    const unsigned comp = cf != nullptr ? COMPOUND : COMPOUND & ~(bit(Q_CREATE) | bit(Q_CREATE_ALLOC));
    namespace D = zserio::detail;
    switch (kind)
    {
    case 0:
        made = std::make_unique<D::StructTypeInfo<A>>(name, cf, tname, span(m.args), span(m.fields), span(m.parameters), span(m.functions));
        mask = comp;
        break;
    case 1:
        made = std::make_unique<D::UnionTypeInfo<A>>(name, cf, tname, span(m.args), span(m.fields), span(m.parameters), span(m.functions));
        mask = comp;
        st = SchemaType::UNION;
        ct = CppType::UNION;
        break;
    case 2:
        made = std::make_unique<D::ChoiceTypeInfo<A>>(name, cf, tname, span(m.args), span(m.fields), span(m.parameters), span(m.functions), s1, span(m.cases));
        mask = comp | bit(Q_SELECTOR) | bit(Q_CASES);
        st = SchemaType::CHOICE;
        ct = CppType::CHOICE;
        break;
    case 3:
        made = std::make_unique<D::EnumTypeInfo<A>>(name, under, span(m.items));
        mask = bit(Q_UNDERLYING) | bit(Q_ENUM_ITEMS);
        st = SchemaType::ENUM;
        ct = CppType::ENUM;
        break;
    case 4:
        made = std::make_unique<D::BitmaskTypeInfo<A>>(name, under, span(m.items));
        mask = bit(Q_UNDERLYING) | bit(Q_BITMASK_VALUES);
        st = SchemaType::BITMASK;
        ct = CppType::BITMASK;
        break;
    case 5:
        made = std::make_unique<D::SqlTableTypeInfo<A>>(name, tname, span(m.args), span(m.columns), s1, s2, flag);
        mask = bit(Q_TEMPLATE_NAME) | bit(Q_TEMPLATE_ARGS) | bit(Q_COLUMNS) | bit(Q_SQL_CONSTRAINT) | bit(Q_VIRTUAL_USING) | bit(Q_WITHOUT_ROWID);
        st = SchemaType::SQL_TABLE;
        ct = CppType::SQL_TABLE;
        break;
    case 6:
        made = std::make_unique<D::SqlDatabaseTypeInfo<A>>(name, span(m.tables));
        mask = bit(Q_TABLES);
        st = SchemaType::SQL_DATABASE;
        ct = CppType::SQL_DATABASE;
        break;
    case 7:
        made = std::make_unique<D::PubsubTypeInfo<A>>(name, span(m.messages));
        mask = bit(Q_MESSAGES);
        st = SchemaType::PUBSUB;
        ct = CppType::PUBSUB;
        break;
    default:
        made = std::make_unique<D::ServiceTypeInfo<A>>(name, span(m.methods));
        mask = bit(Q_METHODS);
        st = SchemaType::SERVICE;
        ct = CppType::SERVICE;
        break;
    }
    const D::RecursiveTypeInfo<A> rec(&currentInfo<A>);
    current<A>() = made.get();
    for (int through = 0; through < 2; ++through)
    {
        const TI<A>& ti = through == 0 ? *made : static_cast<const TI<A>&>(rec);
        const std::string what = vh::str("kind ", kind, through == 0 ? "" : " recursive");
        const char* key = through == 0 ? "made/content" : "made/recursive";
        const auto must = [&](bool good, const char* part) { c.check(good, key, what + " " + part); };
        must(ti.getSchemaName() == name && ti.getSchemaName().data() == name.data(), "name");
        must(ti.getSchemaType() == st && ti.getCppType() == ct, "kind");
        applicable(c, ti, mask, what);
        if ((mask & bit(Q_FIELDS)) != 0)
        {
            must(sameSpan(ti.getFields(), m.fields) && sameSpan(ti.getParameters(), m.parameters) && sameSpan(ti.getFunctions(), m.functions), "members");
        }
        if ((mask & bit(Q_TEMPLATE_NAME)) != 0)
        {
            must(ti.getTemplateName() == tname && sameSpan(ti.getTemplateArguments(), m.args), "template");
        }
        if ((mask & bit(Q_SELECTOR)) != 0)
        {
            must(ti.getSelector() == s1 && sameSpan(ti.getCases(), m.cases), "choice");
        }
        if ((mask & bit(Q_UNDERLYING)) != 0)
        {
            must(&ti.getUnderlyingType() == &under, "underlying type");
            must(sameSpan(kind == 3 ? ti.getEnumItems() : ti.getBitmaskValues(), m.items), "items");
        }
        if ((mask & bit(Q_COLUMNS)) != 0)
        {
            must(sameSpan(ti.getColumns(), m.columns) && ti.getSqlConstraint() == s1 && ti.getVirtualTableUsing() == s2 && ti.isWithoutRowId() == flag, "table");
        }
        if ((mask & bit(Q_TABLES)) != 0)
        {
            must(sameSpan(ti.getTables(), m.tables), "tables");
        }
        if ((mask & bit(Q_MESSAGES)) != 0)
        {
            must(sameSpan(ti.getMessages(), m.messages), "messages");
        }
        if ((mask & bit(Q_METHODS)) != 0)
        {
            must(sameSpan(ti.getMethods(), m.methods), "methods");
        }
        if ((mask & bit(Q_CREATE)) != 0)
        {
            must(ti.createInstance() != nullptr && ti.createInstance(A()) != nullptr, "instance");
        }
    }
    std::string id = std::to_string(kind);
    for (const auto& t : m.text)
    {
        id += t + ",";
    }
    c.distinct(vh::hashStr(id));
    c.count(vh::str("made_kind_", kind).c_str());
}
// what is given to the members of an information is given back as well
template <typename A>
void members(vh::Case& c, const Builtins<A>& bs)
{
    vh::Rng& r = c.rng;
    const TI<A>& t = *bs.all[r.below(bs.all.size())].ti;
    const TI<A>& u = *bs.all[r.below(bs.all.size())].ti;
    const bool f[] = {r.flip(), r.flip(), r.flip(), r.flip(), r.flip()};
    const std::string s[] = {"a" + std::to_string(r.ubits(9)), "b", "c", "d", "e", "f", "g", "h"};
    const std::string_view v[] = {"1", "2", "3"};
    const zserio::BasicFieldInfo<A> fi(s[0], t, zserio::Span<const std::string_view>(v, 3), f[0], s[1], s[2], s[3], f[1], s[4], s[5], f[2], s[6], f[3], f[4]);
    c.check(fi.schemaName == s[0] && &fi.typeInfo == &t && fi.typeArguments.size() == 3 && fi.typeArguments.data() == v && fi.isExtended == f[0] &&
                    fi.alignment == s[1] && fi.offset == s[2] && fi.initializer == s[3] && fi.isOptional == f[1] && fi.optionalCondition == s[4] &&
                    fi.constraint == s[5] && fi.isArray == f[2] && fi.arrayLength == s[6] && fi.isPacked == f[3] && fi.isImplicit == f[4],
            "member/field", s[0]);
    const zserio::BasicColumnInfo<A> ci(s[0], t, zserio::Span<const std::string_view>(v, 2), s[1], s[2], f[0]);
    c.check(ci.schemaName == s[0] && &ci.typeInfo == &t && ci.typeArguments.size() == 2 && ci.sqlTypeName == s[1] && ci.sqlConstraint == s[2] && ci.isVirtual == f[0],
            "member/column", s[0]);
    const zserio::BasicMessageInfo<A> mi(s[0], u, f[0], f[1], s[1]);
    c.check(mi.schemaName == s[0] && &mi.typeInfo == &u && mi.isPublished == f[0] && mi.isSubscribed == f[1] && mi.topic == s[1], "member/message", s[0]);
    const uint64_t x = r.ubits(64);
    const zserio::ItemInfo ii(s[0], x, f[0], f[1]);
    c.check(ii.schemaName == s[0] && ii.value == x && ii.isDeprecated == f[0] && ii.isRemoved == f[1], "member/item", s[0]);
    c.count("members");
}

// threads asking at the same time get the same objects
template <typename A>
void concurrent(vh::Case& c, std::vector<const TI<A>& (*)()> gets)
{
    const size_t threads = 4;
    std::vector<std::vector<const TI<A>*>> seen(threads);
    std::vector<std::thread> ts;
    for (size_t t = 0; t < threads; ++t)
    {
        ts.emplace_back([&, t]() {
            for (size_t i = 0; i < gets.size(); ++i)
            {
                seen[t].push_back(&gets[(i + t * 7) % gets.size()]());
            }
        });
    }
    for (auto& t : ts)
    {
        t.join();
    }
    for (size_t t = 0; t < threads; ++t)
    {
        for (size_t i = 0; i < gets.size(); ++i)
        {
            c.check(seen[t][i] == &gets[(i + t * 7) % gets.size()](), "identity/concurrent", vh::str(i));
        }
    }
    c.count("concurrent_rounds");
}

} // namespace c20
