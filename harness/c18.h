// Reflection against direct access: a tree of expected values read directly from an object (E), a checker which reads the
// same through the reflectable or introspectable interface, and mutations made through reflection and directly.
#pragma once
#include <cmath>
#include <functional>
#include <memory>

#include "tobj.h"
#include "vh.h"
#include "zserio/IntrospectableView.h"
#include "zserio/ReflectableData.h"
#include "zserio/ReflectableUtil.h"

namespace c18
{

using ref::i128;

template <typename T>
struct IsVec : std::false_type
{};
template <typename T, typename A>
struct IsVec<std::vector<T, A>> : std::true_type
{};
template <typename A>
struct IsVec<std::vector<uint8_t, A>> : std::false_type
{};
template <typename T>
inline constexpr bool is_vec = IsVec<T>::value;
template <typename T>
inline constexpr bool is_opt = zserio::detail::is_optional<T>::value;
template <typename T>
struct IsDyn : std::false_type
{};
template <typename V>
struct IsDyn<zserio::detail::DynIntWrapper<V>> : std::true_type
{};
template <typename T, typename = void>
struct IsBuf : std::false_type
{};
template <typename A>
struct IsBuf<zserio::BasicBitBuffer<A>> : std::true_type
{};
template <typename T>
inline constexpr bool is_text = std::is_constructible_v<std::string_view, const T&> && !zserio::is_numeric_wrapper_v<T>;
template <typename T>
inline constexpr bool is_bytes = !is_text<T> && !is_vec<T> && std::is_constructible_v<zserio::Span<const uint8_t>, const T&>;
template <typename T>
inline constexpr bool is_leaf = zserio::is_numeric_wrapper_v<T> || std::is_enum_v<T> || zserio::is_bitmask_v<T> || is_text<T> ||
        is_bytes<T> || IsBuf<T>::value;

// exact getters
enum Exact
{
    BOOL,
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    FLT,
    DBL,
    BYTES,
    TEXT,
    BITS,
    NONE
};

template <typename A>
struct E
{
    enum Kind
    {
        NUL,
        LEAF,
        ARR,
        OBJ,
        CHOICE
    };
    Kind kind = NUL;
    std::string name;
    Exact exact = NONE;
    bool hasInt = false;
    bool hasUInt = false;
    bool hasDouble = false;
    bool hasText = false;
    bool unset = false; // not selected branch
    i128 num = 0;
    double dbl = 0;
    std::string text; // toString()
    std::string blob; // string, bytes, bit buffer bytes
    size_t bits = 0;
    const void* addr = nullptr;
    const zserio::IBasicTypeInfo<A>* ti = nullptr;
    bool (*anyOk)(const zserio::BasicAny<A>&, const void*, bool) = nullptr; // reflectable
    bool (*viewOk)(const zserio::BasicAny<A>&, const void*) = nullptr; // introspectable
    std::string choice;
    std::vector<E> kids;

    void digest(std::string& d) const
    {
        d += static_cast<char>('a' + kind);
        d += name;
        d += choice;
        if (kind == LEAF)
        {
            char t[100];
            uint64_t f = 0;
            std::memcpy(&f, &dbl, 8);
            snprintf(t, sizeof t, "%d:%llx:%llx:%zu:", exact, static_cast<unsigned long long>(static_cast<uint64_t>(num)),
                    std::isnan(dbl) ? 0x7ff8000000000000ULL : static_cast<unsigned long long>(f), bits);
            d += t;
            d += blob;
        }
        d += vh::str(kids.size(), "(");
        for (const E& k : kids)
        {
            k.digest(d);
        }
        d += ")";
    }
};

enum Same
{
    EQUAL,
    CLOSE, // floating point values differ by rounding errors
    DIFFERENT
};
template <typename T>
std::vector<std::string> params(const T*)
{
    return {};
}
inline Same sameDouble(double a, double b)
{
    if (std::isnan(a) || std::isnan(b))
    {
        return std::isnan(a) && std::isnan(b) ? EQUAL : DIFFERENT;
    }
    if (a == b)
    {
        return EQUAL;
    }
    if (std::isinf(a) || std::isinf(b))
    {
        return DIFFERENT;
    }
    const long double d = std::fabs(static_cast<long double>(a) - b);
    const long double m = std::max(std::fabs(static_cast<long double>(a)), std::fabs(static_cast<long double>(b)));
    return d <= 4 * static_cast<long double>(std::numeric_limits<double>::epsilon()) * m ||
                    d < std::numeric_limits<double>::min()
            ? CLOSE
            : DIFFERENT;
}
template <typename A>
Same same(const E<A>& a, const E<A>& b)
{
    if (a.kind != b.kind || a.kids.size() != b.kids.size() || a.choice != b.choice || a.exact != b.exact || a.num != b.num ||
            a.bits != b.bits || a.blob != b.blob)
    {
        return DIFFERENT;
    }
    Same s = a.exact == FLT || a.exact == DBL ? sameDouble(a.dbl, b.dbl) : EQUAL;
    for (size_t i = 0; i < a.kids.size() && s != DIFFERENT; ++i)
    {
        s = std::max(s, same(a.kids[i], b.kids[i]));
    }
    return s;
}

// expected values read directly --------------------------------------------------------------------------------------
// visit(object, f) calls f(name, accessor) for every possible field; found by the namespace of the object
template <typename M>
struct PlainAcc
{
    using Type = M;
    static constexpr bool OPTIONAL = false;
    M& m;
    bool present() const
    {
        return true;
    }
    bool optionalUnset() const
    {
        return false;
    }
    M& get() const
    {
        return m;
    }
    void set(const M& v) const
    {
        m = v;
    }
    template <typename A>
    void create(const A&) const
    {
        m = M();
    }
    void reset() const
    {}
};
template <typename O>
struct OptAcc
{
    using Type = std::decay_t<decltype(*std::declval<O&>())>;
    static constexpr bool OPTIONAL = true;
    O& m;
    bool present() const
    {
        return m.has_value();
    }
    Type& get() const
    {
        return *m;
    }
    void set(const Type& v) const
    {
        m = v;
    }
    template <typename A>
    void create(const A&) const
    {
        m = Type();
    }
    void reset() const
    {
        m.reset();
    }
};
template <typename V, auto TAG>
struct VarAcc
{
    using Type = std::decay_t<decltype(std::declval<V&>().template get<TAG>())>;
    static constexpr bool OPTIONAL = false;
    V& m;
    bool present() const
    {
        return m.index() == TAG;
    }
    Type& get() const
    {
        return m.template get<TAG>();
    }
    void set(const Type& v) const
    {
        m.template emplace<TAG>(v);
    }
    template <typename A>
    void create(const A&) const
    {
        m.template emplace<TAG>();
    }
    void reset() const
    {}
};
template <typename T>
struct IsVar : std::false_type
{}; // choices and unions: specialised for the objects

template <typename T>
constexpr Exact exactOf()
{
    if (std::is_same_v<T, bool>)
    {
        return BOOL;
    }
    if (std::is_floating_point_v<T>)
    {
        return sizeof(T) == 4 ? FLT : DBL;
    }
    const int k = sizeof(T) == 1 ? 0 : (sizeof(T) == 2 ? 1 : (sizeof(T) == 4 ? 2 : 3));
    return static_cast<Exact>((std::is_signed_v<T> ? I8 : U8) + k);
}

template <typename A, typename T>
bool anyValueOk(const zserio::BasicAny<A>& any, const void* addr, bool mut)
{
    const T& v = *static_cast<const T*>(addr);
    if constexpr (is_text<T>)
    {
        return any.template isType<std::string_view>() && any.template get<std::string_view>() == std::string_view(v);
    }
    else if constexpr (is_bytes<T>)
    {
        if (!any.template isType<zserio::BytesView>())
        {
            return false;
        }
        const auto s = any.template get<zserio::BytesView>();
        return s.size() == v.size() && std::equal(s.begin(), s.end(), v.begin());
    }
    else if constexpr (IsBuf<T>::value)
    {
        return any.template isType<std::reference_wrapper<const T>>() &&
                &any.template get<std::reference_wrapper<const T>>().get() == addr;
    }
    else if constexpr (is_leaf<T>)
    {
        if (!any.template isType<T>())
        {
            return false;
        }
        const T& g = any.template get<T>();
        if constexpr (zserio::is_numeric_wrapper_v<T>)
        {
            using V = typename T::ValueType;
            const V a = g;
            const V b = v;
            return std::memcmp(&a, &b, sizeof(V)) == 0;
        }
        else
        {
            return g == v;
        }
    }
    else if (mut)
    {
        return any.template isType<std::reference_wrapper<T>>() && &any.template get<std::reference_wrapper<T>>().get() == addr;
    }
    else
    {
        return any.template isType<std::reference_wrapper<const T>>() &&
                &any.template get<std::reference_wrapper<const T>>().get() == addr;
    }
}
template <typename A, typename T>
bool viewValueOk(const zserio::BasicAny<A>& any, const void* addr)
{
    const T& v = *static_cast<const T*>(addr);
    if constexpr (is_text<T> || is_bytes<T>)
    {
        return anyValueOk<A, T>(any, addr, false);
    }
    else if constexpr (IsBuf<T>::value)
    {
        if (!any.template isType<zserio::BasicBitBufferView<A>>())
        {
            return false;
        }
        const zserio::BasicBitBuffer<A>& b = any.template get<zserio::BasicBitBufferView<A>>();
        return b == v;
    }
    else if constexpr (IsDyn<T>::value)
    {
        using V = typename T::ValueType;
        return any.template isType<zserio::View<T>>() &&
                static_cast<V>(any.template get<zserio::View<T>>()) == static_cast<V>(v);
    }
    else if constexpr (is_leaf<T>)
    {
        return anyValueOk<A, T>(any, addr, false);
    }
    else if constexpr (is_vec<T>)
    {
        return true;
    }
    else
    {
        return any.template isType<zserio::View<T>>() && &any.template get<zserio::View<T>>().zserioData() == addr;
    }
}

template <typename A, typename T>
E<A> expect(T& v);
template <typename A, typename T>
E<A> named(std::string name, T& v)
{
    E<A> e = expect<A>(v);
    e.name = std::move(name);
    return e;
}
template <typename E_>
std::string enumText(E_ v)
{
    const auto& values = zserio::EnumTraits<E_>::values;
    for (size_t i = 0; i < values.size(); ++i)
    {
        if (values[i] == v)
        {
            return std::string(zserio::EnumTraits<E_>::names[i]);
        }
    }
    return "?";
}
template <typename A, typename T>
E<A> expect(T& v)
{
    E<A> e;
    e.addr = &v;
    e.anyOk = &anyValueOk<A, T>;
    e.viewOk = &viewValueOk<A, T>;
    if constexpr (zserio::is_numeric_wrapper_v<T>)
    {
        using V = typename T::ValueType;
        e.kind = E<A>::LEAF;
        e.ti = &zserio::typeInfo<T, A>();
        e.exact = exactOf<V>();
        const V x = v;
        e.hasDouble = true;
        e.dbl = static_cast<double>(x);
        if constexpr (!std::is_floating_point_v<V>)
        {
            e.num = x;
            e.hasInt = std::is_signed_v<V>;
            e.hasUInt = !e.hasInt;
            e.hasText = true;
            e.text = std::is_signed_v<V> ? vh::str(static_cast<int64_t>(x)) : vh::str(static_cast<uint64_t>(x));
            if (std::is_same_v<V, bool>)
            {
                e.text = e.num != 0 ? "true" : "false";
            }
        }
    }
    else if constexpr (std::is_enum_v<T>)
    {
        using V = std::underlying_type_t<T>;
        e.kind = E<A>::LEAF;
        e.ti = &zserio::typeInfo<T, A>();
        e.exact = exactOf<V>();
        e.num = static_cast<V>(v);
        e.hasInt = std::is_signed_v<V>;
        e.hasUInt = !e.hasInt;
        e.hasDouble = true;
        e.dbl = static_cast<double>(static_cast<V>(v));
        e.hasText = true;
        e.text = enumText(v);
    }
    else if constexpr (zserio::is_bitmask_v<T>)
    {
        using V = typename T::ZserioType::ValueType;
        e.kind = E<A>::LEAF;
        e.ti = &zserio::typeInfo<T, A>();
        e.exact = exactOf<V>();
        const V x = v.getValue();
        e.num = x;
        e.hasUInt = true;
        e.hasDouble = true;
        e.dbl = static_cast<double>(x);
        e.hasText = true;
        e.text = std::string(v.toString());
    }
    else if constexpr (is_text<T>)
    {
        e.kind = E<A>::LEAF;
        e.ti = &zserio::typeInfo<T, A>();
        e.exact = TEXT;
        e.blob = std::string(std::string_view(v));
        e.hasText = true;
        e.text = e.blob;
    }
    else if constexpr (is_bytes<T>)
    {
        e.kind = E<A>::LEAF;
        e.ti = &zserio::typeInfo<T, A>();
        e.exact = BYTES;
        e.blob.assign(v.begin(), v.end());
    }
    else if constexpr (IsBuf<T>::value)
    {
        e.kind = E<A>::LEAF;
        e.ti = &zserio::typeInfo<T, A>();
        e.exact = BITS;
        e.bits = v.getBitSize();
        e.blob = ops::maskBlob(std::string(reinterpret_cast<const char*>(v.getBuffer()), v.getByteSize()), e.bits);
    }
    else if constexpr (is_vec<T>)
    {
        e.kind = E<A>::ARR;
        e.ti = &zserio::typeInfo<typename T::value_type, A>();
        for (auto& k : v)
        {
            e.kids.push_back(expect<A>(k));
        }
    }
    else
    {
        e.kind = IsVar<T>::value ? E<A>::CHOICE : E<A>::OBJ;
        e.ti = &zserio::typeInfo<T, A>();
        visit(v, [&](std::string_view name, auto acc) {
            if (acc.present())
            {
                e.kids.push_back(named<A>(std::string(name), acc.get()));
                if (e.kind == E<A>::CHOICE)
                {
                    e.choice = std::string(name);
                }
            }
            else
            {
                E<A> none;
                none.name = std::string(name);
                none.unset = e.kind == E<A>::CHOICE;
                e.kids.push_back(std::move(none));
            }
        });
    }
    return e;
}

// the checker --------------------------------------------------------------------------------------------------------
template <typename F>
bool throwsRuntime(F&& f)
{
    try
    {
        f();
    }
    catch (const zserio::CppRuntimeException&)
    {
        return true;
    }
    return false;
}

template <typename I>
bool exactWorks(const I& h, int k, i128& num, double& dbl, std::string& blob, size_t& bits)
{
    switch (k)
    {
    case BOOL:
        num = h.getBool() ? 1 : 0;
        break;
    case I8:
        num = h.getInt8();
        break;
    case I16:
        num = h.getInt16();
        break;
    case I32:
        num = h.getInt32();
        break;
    case I64:
        num = h.getInt64();
        break;
    case U8:
        num = h.getUInt8();
        break;
    case U16:
        num = h.getUInt16();
        break;
    case U32:
        num = h.getUInt32();
        break;
    case U64:
        num = h.getUInt64();
        break;
    case FLT:
        dbl = h.getFloat();
        break;
    case DBL:
        dbl = h.getDouble();
        break;
    case BYTES:
    {
        const auto s = h.getBytes();
        blob.assign(s.begin(), s.end());
        break;
    }
    case TEXT:
        blob = std::string(h.getStringView());
        break;
    default:
    {
        const auto& b = h.getBitBuffer();
        bits = b.getBitSize();
        blob = ops::maskBlob(std::string(reinterpret_cast<const char*>(b.getBuffer()), b.getByteSize()), bits);
        break;
    }
    }
    return true;
}

inline void ok(vh::Case& c, bool cond, const std::string& key, const std::string& detail)
{
    c.eval();
    if (!cond)
    {
        c.fail(key, detail);
    }
}
struct Look
{
    vh::Case& c;
    std::string what; // prefix of keys
    bool deep; // all the calls which have to throw
    std::string path;
    bool owner = false; // handle to an owner

    std::string at(const std::string& name) const
    {
        return path + "/" + name;
    }
};

bool sameBits(double a, double b);

// checks a handle against the expected value; mut: handle is to mutable data and used as mutable
template <typename A, typename I>
void check(Look& l, const I& h, const E<A>& e)
{
    vh::Case& c = l.c;
    const auto fail = [&](const char* key, const std::string& detail) {
        c.fail(l.what + "/" + key, vh::str(l.path, ": ", detail));
    };
    const auto must = [&](bool ok, const char* key, const std::string& detail) {
        c.eval();
        if (!ok)
        {
            fail(key, detail);
        }
    };
    const auto refuses = [&](const char* key, auto&& f) {
        c.eval();
        if (!throwsRuntime(f))
        {
            fail(key, "call which has to be refused succeeded");
        }
    };
    must(&h.getTypeInfo() == e.ti, "type-info", "not the type information of the value");
    must(h.isArray() == (e.kind == E<A>::ARR), "is-array", vh::str(h.isArray()));
    c.count(e.kind == E<A>::LEAF ? "leaves" : (e.kind == E<A>::ARR ? "arrays" : "compounds"));

    // exact getters
    const bool all = l.deep && c.rng.chance(30);
    const unsigned some = static_cast<unsigned>(c.rng.below(NONE));
    for (int k = 0; k < NONE; ++k)
    {
        i128 num = 0;
        double dbl = 0;
        std::string blob;
        size_t bits = 0;
        if (k == e.exact)
        {
            exactWorks(h, k, num, dbl, blob, bits);
            must(num == (k == FLT || k == DBL ? 0 : e.num) && (k != FLT && k != DBL ? true : sameBits(dbl, e.dbl)) && blob == e.blob &&
                            bits == e.bits,
                    "exact-getter", vh::str("getter ", k, " gives ", static_cast<int64_t>(num), " ", dbl, " ", vh::hex(blob.data(), blob.size()), " for ",
                            static_cast<int64_t>(e.num), " ", e.dbl, " ", vh::hex(e.blob.data(), e.blob.size())));
        }
        else if (all || (l.deep && static_cast<unsigned>(k) == some))
        {
            refuses("wrong-exact-getter", [&]() { exactWorks(h, k, num, dbl, blob, bits); });
            c.count("refused_getters");
        }
    }
    if (e.hasInt)
    {
        must(h.toInt() == static_cast<int64_t>(e.num), "to-int", vh::str(h.toInt()));
    }
    else if (all)
    {
        refuses("to-int-refused", [&]() { (void)h.toInt(); });
    }
    if (e.hasUInt)
    {
        must(h.toUInt() == static_cast<uint64_t>(e.num), "to-uint", vh::str(h.toUInt()));
    }
    else if (all)
    {
        refuses("to-uint-refused", [&]() { (void)h.toUInt(); });
    }
    if (e.hasDouble)
    {
        must(sameBits(h.toDouble(), e.dbl), "to-double", vh::str(h.toDouble(), " for ", e.dbl));
    }
    else if (all)
    {
        refuses("to-double-refused", [&]() { (void)h.toDouble(); });
    }
    if (e.hasText)
    {
        const auto s = h.toString();
        must(std::string_view(s) == e.text, "to-string", vh::str("'", std::string(s), "' for '", e.text, "'"));
    }
    else if (all)
    {
        refuses("to-string-refused", [&]() { (void)h.toString(); });
    }
    {
        const auto any = h.getAnyValue();
        if constexpr (std::is_base_of_v<zserio::IBasicReflectableData<A>, I>)
        {
            // an owner gives mutable references through constant handles as well
            must(e.anyOk(any, e.addr, false) || (l.owner && l.path.empty() && e.anyOk(any, e.addr, true)), "any-value",
                    "constant any value is not the value");
        }
        else
        {
            must(e.viewOk(any, e.addr), "any-value", "any value of the view is not the value");
        }
    }

    switch (e.kind)
    {
    case E<A>::ARR:
    {
        must(h.size() == e.kids.size(), "size", vh::str(h.size(), " for ", e.kids.size()));
        const std::string save = l.path;
        for (size_t i = 0; i < e.kids.size(); ++i)
        {
            if (e.kids.size() > 12 && !c.rng.chance(20))
            {
                continue;
            }
            l.path = save + vh::str("[", i, "]");
            const auto k = c.rng.flip() ? h.at(i) : h[i];
            if (!k)
            {
                fail("null-element", "null");
                continue;
            }
            check<A>(l, *k, e.kids[i]);
        }
        l.path = save;
        if (l.deep)
        {
            const size_t beyond[] = {e.kids.size(), e.kids.size() + 1, ~size_t(0), size_t(1) << 32};
            const size_t i = c.rng.pick(beyond);
            refuses("at-beyond", [&]() { (void)h.at(i); });
            c.count("refused_index");
        }
        if (all)
        {
            refuses("index-beyond", [&]() { (void)h[e.kids.size()]; });
            refuses("array-field", [&]() { (void)h.getField("value"); });
            refuses("array-choice", [&]() { (void)h.getChoice(); });
        }
        break;
    }
    case E<A>::OBJ:
    case E<A>::CHOICE:
    {
        const std::string save = l.path;
        for (const E<A>& k : e.kids)
        {
            l.path = save + "/" + k.name;
            if (k.unset)
            {
                if (l.deep)
                {
                    refuses("other-branch", [&]() { (void)h.getField(k.name); });
                    c.count("refused_branch");
                }
                continue;
            }
            const auto p = h.getField(k.name);
            if (k.kind == E<A>::NUL)
            {
                must(p == nullptr, "unset-field", "unset optional is not null");
                c.count("unset");
                continue;
            }
            if (!p)
            {
                fail("null-field", "present field is null");
                continue;
            }
            check<A>(l, *p, k);
        }
        l.path = save;
        if (e.kind == E<A>::CHOICE)
        {
            must(h.getChoice() == e.choice, "choice", vh::str(std::string(h.getChoice()), " for ", e.choice));
        }
        else if (all)
        {
            refuses("struct-choice", [&]() { (void)h.getChoice(); });
        }
        if (all)
        {
            refuses("unknown-field", [&]() { (void)h.getField("noSuchField"); });
            refuses("empty-field", [&]() { (void)h.getField(""); });
            if (!e.kids.empty())
            {
                refuses("longer-name", [&]() { (void)h.getField(e.kids[0].name + "x"); });
                refuses("shorter-name", [&]() { (void)h.getField(e.kids[0].name.substr(0, e.kids[0].name.size() - 1) + "_"); });
            }
        }
        break;
    }
    default:
        if (all)
        {
            refuses("leaf-field", [&]() { (void)h.getField("value"); });
            refuses("leaf-choice", [&]() { (void)h.getChoice(); });
        }
        break;
    }
    if (all && e.kind != E<A>::ARR)
    {
        refuses("size-of-no-array", [&]() { (void)h.size(); });
        refuses("at-of-no-array", [&]() { (void)h.at(0); });
        refuses("index-of-no-array", [&]() { (void)h[size_t(0)]; });
    }
}

// find by path from the root: every path to a descendant finds it, unset ones and wrong paths find nothing
template <typename A, typename I>
void checkPaths(Look& l, const I& root, const E<A>& e, const std::string& path)
{
    for (const E<A>& k : e.kids)
    {
        const std::string p = path.empty() ? k.name : path + "." + k.name;
        const auto h = l.c.rng.flip() ? root.find(p) : root[std::string_view(p)];
        l.c.eval();
        l.c.count("paths");
        if (k.kind == E<A>::NUL)
        {
            ok(l.c, h == nullptr, l.what + "/find-unset", p);
            continue;
        }
        if (!h)
        {
            l.c.fail(l.what + "/find-missing", p);
            continue;
        }
        const bool deep = l.deep;
        l.deep = false;
        l.path = "find:" + p;
        if (k.kind == E<A>::LEAF || l.c.rng.chance(10))
        {
            check<A>(l, *h, k);
        }
        else
        {
            ok(l.c, &h->getTypeInfo() == k.ti && h->isArray() == (k.kind == E<A>::ARR), l.what + "/find-other", p);
        }
        l.deep = deep;
        if (k.kind == E<A>::OBJ || k.kind == E<A>::CHOICE)
        {
            checkPaths<A>(l, root, k, p);
        }
        else if (l.c.rng.chance(20))
        {
            ok(l.c, root.find(p + ".value") == nullptr, l.what + "/find-below-leaf", p);
        }
        if (l.c.rng.chance(10))
        {
            static const char* wrong[] = {".", "..x", ".noSuchField", " ", "x", ".[0]"};
            const std::string w = p + l.c.rng.pick(wrong);
            ok(l.c, root.find(w) == nullptr, l.what + "/find-wrong-path", w);
            ok(l.c, root.find("." + p) == nullptr, l.what + "/find-leading-dot", p);
        }
    }
}

// mutation -----------------------------------------------------------------------------------------------------------
struct Wrong
{
    int x = 1;
    bool operator==(const Wrong& o) const
    {
        return x == o.x;
    }
};

template <typename A>
struct Mut
{
    using Any = zserio::BasicAny<A>;
    using Refl = zserio::IBasicReflectableData<A>;

    vh::Case& c;
    A alloc;
    std::function<void(const char*, const std::string&)> fail; // key, detail
    std::string log;

    void did(const std::string& s)
    {
        if (log.size() < 600)
        {
            log += s + "; ";
        }
    }
    void refused(const char* key, const std::function<void()>& f)
    {
        c.eval();
        c.count("refused_mutations");
        if (!throwsRuntime(f))
        {
            fail(key, "not refused: " + log);
        }
    }
    Any wrongAny(uint64_t k, bool notNumber)
    {
        switch (k)
        {
        case 0:
            return Any(alloc);
        case 1:
            return Any(Wrong(), alloc);
        default:
            return notNumber ? Any(static_cast<int64_t>(1), alloc) : Any(std::string("1"), alloc);
        }
    }
    // every mutating call on a handle to constant data
    void constHandle(Refl& h, const std::string& name)
    {
        switch (c.rng.below(7))
        {
        case 0:
            refused("const-set-field", [&]() { h.setField(name, Any(Wrong(), alloc)); });
            break;
        case 1:
            refused("const-create-field", [&]() { (void)h.createField(name); });
            break;
        case 2:
            refused("const-get-field", [&]() { (void)h.getField(name); });
            break;
        case 3:
            refused("const-resize", [&]() { h.resize(1); });
            break;
        case 4:
            refused("const-at", [&]() { (void)h.at(0); });
            break;
        case 5:
            refused("const-append", [&]() { h.append(Any(Wrong(), alloc)); });
            break;
        default:
            refused("const-set-at", [&]() { h.setAt(Any(Wrong(), alloc), 0); });
            break;
        }
    }
};

template <typename T, typename A>
zserio::BasicAny<A> anyOf(const T& v, vh::Rng& r, const A& alloc, std::string& form)
{
    using Any = zserio::BasicAny<A>;
    const uint64_t k = r.below(3);
    if constexpr (std::is_enum_v<T>)
    {
        using V = std::underlying_type_t<T>;
        form = k == 0 ? "enum" : (k == 1 ? "underlying" : "wrapper");
        if (k == 1)
        {
            return Any(static_cast<V>(v), alloc);
        }
        if (k == 2)
        {
            return Any(typename zserio::EnumTraits<T>::ZserioType(static_cast<V>(v)), alloc);
        }
    }
    else if constexpr (zserio::is_bitmask_v<T>)
    {
        using Z = typename T::ZserioType;
        form = k == 0 ? "bitmask" : (k == 1 ? "underlying" : "wrapper");
        if (k == 1)
        {
            return Any(static_cast<typename Z::ValueType>(v.getValue()), alloc);
        }
        if (k == 2)
        {
            return Any(Z(v.getValue()), alloc);
        }
    }
    else if constexpr (zserio::is_numeric_wrapper_v<T>)
    {
        form = k == 1 ? "native" : "wrapper";
        if (k == 1)
        {
            return Any(static_cast<typename T::ValueType>(v), alloc);
        }
    }
    return Any(v, alloc);
}

template <typename A, typename T, typename G>
void mutateCompound(Mut<A>& m, zserio::IBasicReflectableData<A>& h, T& model, G& gen, int depth);

// element operations of an array
template <typename A, typename T, typename G>
void mutateArray(Mut<A>& m, zserio::IBasicReflectableData<A>& h, T& model, G& gen, int depth)
{
    using V = typename T::value_type;
    vh::Rng& r = m.c.rng;
    switch (r.below(8))
    {
    case 0:
    {
        const size_t n = r.below(model.size() + 4);
        m.did(vh::str("resize ", n));
        h.resize(n);
        model.resize(n);
        m.c.count("resized");
        break;
    }
    case 1:
    case 2:
    {
        V v = V();
        gen(v);
        std::string form;
        m.did(vh::str("append at ", model.size()));
        h.append(anyOf<V>(v, r, m.alloc, form));
        model.push_back(v);
        m.c.count("appended");
        break;
    }
    case 3:
    case 4:
        if (!model.empty())
        {
            const size_t i = r.below(model.size());
            V v = V();
            gen(v);
            std::string form;
            m.did(vh::str("setAt ", i));
            h.setAt(anyOf<V>(v, r, m.alloc, form), i);
            model[i] = v;
            m.c.count("set_at");
        }
        break;
    case 5:
    {
        V v = V();
        gen(v);
        const size_t beyond[] = {model.size(), model.size() + 1, ~size_t(0)};
        const size_t i = r.pick(beyond);
        m.did(vh::str("setAt beyond ", i));
        m.refused("set-at-beyond", [&]() { h.setAt(zserio::BasicAny<A>(v, m.alloc), i); });
        m.refused("mutable-at-beyond", [&]() { (void)h.at(i); });
        break;
    }
    case 6:
    {
        constexpr bool notNumber = !zserio::is_numeric_wrapper_v<V> && !std::is_enum_v<V> && !zserio::is_bitmask_v<V>;
        const auto any = m.wrongAny(r.below(3), notNumber);
        m.did("wrong element type");
        m.refused("append-wrong-type", [&]() { h.append(any); });
        if (!model.empty())
        {
            m.refused("set-at-wrong-type", [&]() { h.setAt(any, model.size() - 1); });
        }
        m.refused("array-set-field", [&]() { h.setField("value", any); });
        m.refused("array-create-field", [&]() { (void)h.createField("value"); });
        break;
    }
    default:
        if (!model.empty())
        {
            const size_t i = r.below(model.size());
            auto k = r.flip() ? h.at(i) : h[i];
            if (!k)
            {
                m.fail("null-element", m.log);
                return;
            }
            m.did(vh::str("[", i, "]"));
            if constexpr (!is_leaf<V>)
            {
                mutateCompound<A>(m, *k, model[i], gen, depth + 1);
            }
            else
            {
                m.refused("leaf-resize", [&]() { k->resize(0); });
                m.refused("leaf-set-field", [&]() { k->setField("value", zserio::BasicAny<A>(Wrong(), m.alloc)); });
            }
        }
        break;
    }
}

template <typename A, typename ACC, typename G>
void mutateField(Mut<A>& m, zserio::IBasicReflectableData<A>& h, const std::string& name, ACC acc, G& gen, int depth)
{
    using V = typename ACC::Type;
    using Any = zserio::BasicAny<A>;
    vh::Rng& r = m.c.rng;
    constexpr bool notNumber = !zserio::is_numeric_wrapper_v<V> && !std::is_enum_v<V> && !zserio::is_bitmask_v<V>;
    switch (r.below(9))
    {
    case 0:
    case 1:
    {
        V v = V();
        gen(v);
        std::string form;
        const Any any = anyOf<V>(v, r, m.alloc, form);
        m.did("set " + name + " " + form);
        h.setField(name, any);
        acc.set(v);
        m.c.count("set_field");
        break;
    }
    case 2:
        m.did("wrong type for " + name);
        m.refused("set-field-wrong-type", [&]() { h.setField(name, m.wrongAny(r.below(3), notNumber)); });
        break;
    case 3:
        m.did("null " + name);
        if (ACC::OPTIONAL)
        {
            h.setField(name, Any(nullptr, m.alloc));
            acc.reset();
            m.c.count("reset");
        }
        else
        {
            m.refused("null-for-plain", [&]() { h.setField(name, Any(nullptr, m.alloc)); });
        }
        break;
    case 4:
    {
        m.did("create " + name);
        auto k = h.createField(name);
        acc.create(m.alloc);
        ok(m.c, k != nullptr, "create-null", m.log);
        m.c.count("created");
        break;
    }
    case 5:
        if constexpr (std::is_enum_v<V>)
        {
            m.did("invalid value for " + name);
            m.refused("invalid-enum", [&]() { h.setField(name, Any(static_cast<std::underlying_type_t<V>>(77), m.alloc)); });
            m.refused("invalid-enum", [&]() { h.setField(name, Any(typename zserio::EnumTraits<V>::ZserioType(-77), m.alloc)); });
        }
        break;
    default:
        if (!acc.present())
        {
            if (ACC::OPTIONAL)
            {
                ok(m.c, h.getField(name) == nullptr, "mutable-unset", m.log + name);
            }
            else
            {
                m.refused("mutable-other-branch", [&]() { (void)h.getField(name); });
            }
            break;
        }
        auto k = r.chance(30) ? h.find(name) : h.getField(name);
        if (!k)
        {
            m.fail("null-field", m.log + name);
            return;
        }
        m.did(name);
        if constexpr (is_vec<V>)
        {
            mutateArray<A>(m, *k, acc.get(), gen, depth + 1);
        }
        else if constexpr (!is_leaf<V>)
        {
            mutateCompound<A>(m, *k, acc.get(), gen, depth + 1);
        }
        else
        {
            m.refused("leaf-append", [&]() { k->append(Any(Wrong(), m.alloc)); });
            m.refused("leaf-create", [&]() { (void)k->createField("value"); });
        }
        break;
    }
}

template <typename A, typename T, typename G>
void mutateCompound(Mut<A>& m, zserio::IBasicReflectableData<A>& h, T& model, G& gen, int depth)
{
    vh::Rng& r = m.c.rng;
    if (r.chance(6))
    {
        m.did("unknown field");
        static const char* names[] = {"", "noSuchField", "value.", " value", "Value", "textt"};
        const char* n = r.pick(names);
        m.refused("set-unknown", [&]() { h.setField(n, zserio::BasicAny<A>(Wrong(), m.alloc)); });
        m.refused("create-unknown", [&]() { (void)h.createField(n); });
        m.refused("get-unknown", [&]() { (void)h.getField(n); });
        m.refused("compound-append", [&]() { h.append(zserio::BasicAny<A>(Wrong(), m.alloc)); });
        m.refused("compound-resize", [&]() { h.resize(3); });
        m.refused("compound-set-at", [&]() { h.setAt(zserio::BasicAny<A>(Wrong(), m.alloc), 0); });
        return;
    }
    size_t n = 0;
    visit(model, [&](std::string_view, auto) { ++n; });
    if (n == 0)
    {
        return;
    }
    const size_t want = r.below(n);
    size_t i = 0;
    bool done = false;
    visit(model, [&](std::string_view name, auto acc) {
        if (i++ == want && !done)
        {
            done = true;
            mutateField<A>(m, h, std::string(name), acc, gen, depth);
        }
    });
}

} // namespace c18
