// Hand-written object in the style of generated code, which has a field, an optional field and an array field of every
// built-in type and of an enum, a bitmask and a structure. Available for every allocator.
#pragma once
#include <array>
#include <limits>
#include <map>
#include <tuple>

#include "jsonref.h"
#include "ops.h"
#include "tobj.h"
#include "zserio/BitBuffer.h"
#include "zserio/Bytes.h"
#include "zserio/Optional.h"
#include "zserio/ReflectableData.h"
#include "zserio/ReflectableUtil.h"
#include "zserio/String.h"
#include "zserio/TypeInfo.h"
#include "zserio/Types.h"
#include "zserio/Vector.h"
#include "zserio/View.h"

namespace allobj
{

using jref::J;

// enum, bitmask and structure of the allocator: En, Ma, Ne
template <typename A>
struct Ext;

template <typename A>
using Str = zserio::BasicString<zserio::RebindAlloc<A, char>>;
template <typename A>
using Byt = zserio::BasicBytes<A>;
template <typename A>
using Buf = zserio::BasicBitBuffer<A>;

template <typename A>
using Types = std::tuple<zserio::Bool, zserio::Int1, zserio::Int5, zserio::Int8, zserio::Int13, zserio::Int16, zserio::Int27,
        zserio::Int32, zserio::Int48, zserio::Int64, zserio::UInt1, zserio::UInt7, zserio::UInt8, zserio::UInt12,
        zserio::UInt16, zserio::UInt31, zserio::UInt32, zserio::UInt63, zserio::UInt64, zserio::DynInt8, zserio::DynInt16,
        zserio::DynInt32, zserio::DynInt64, zserio::DynUInt8, zserio::DynUInt16, zserio::DynUInt32, zserio::DynUInt64,
        zserio::VarInt16, zserio::VarInt32, zserio::VarInt64, zserio::VarInt, zserio::VarUInt16, zserio::VarUInt32,
        zserio::VarUInt64, zserio::VarUInt, zserio::VarSize, zserio::Float16, zserio::Float32, zserio::Float64, Str<A>,
        Byt<A>, Buf<A>, typename Ext<A>::En, typename Ext<A>::Ma, typename Ext<A>::Ne>;

constexpr size_t COUNT = 45;
constexpr std::array<std::string_view, COUNT> NAMES = {"bool", "int1", "int5", "int8", "int13", "int16", "int27", "int32",
        "int48", "int64", "uint1", "uint7", "uint8", "uint12", "uint16", "uint31", "uint32", "uint63", "uint64", "dynInt8",
        "dynInt16", "dynInt32", "dynInt64", "dynUInt8", "dynUInt16", "dynUInt32", "dynUInt64", "varint16", "varint32",
        "varint64", "varint", "varuint16", "varuint32", "varuint64", "varuint", "varsize", "float16", "float32", "float64",
        "string", "bytes", "bits", "enum", "mask", "nested"};
enum Shape
{
    PLAIN,
    OPT,
    ARR,
    OPT_ARR
};
// types which have optional and array fields
template <typename A>
using SomeTypes = std::tuple<zserio::Bool, zserio::Int5, zserio::Int64, zserio::UInt8, zserio::UInt64, zserio::DynInt16,
        zserio::VarInt16, zserio::VarUInt, zserio::VarSize, zserio::Float16, zserio::Float32, zserio::Float64, Str<A>, Byt<A>,
        Buf<A>, typename Ext<A>::En, typename Ext<A>::Ma, typename Ext<A>::Ne>;
constexpr size_t SOME_COUNT = 18;
constexpr std::array<std::string_view, SOME_COUNT> SOME_NAMES = {"bool", "int5", "int64", "uint8", "uint64", "dynInt16",
        "varint16", "varuint", "varsize", "float16", "float32", "float64", "string", "bytes", "bits", "enum", "mask", "nested"};
// types which have optional array fields
template <typename A>
using FewTypes = std::tuple<zserio::UInt8, zserio::Float64, Str<A>, Buf<A>, typename Ext<A>::Ne>;
constexpr size_t FEW_COUNT = 5;
constexpr std::array<std::string_view, FEW_COUNT> FEW_NAMES = {"uint8", "float64", "string", "bits", "nested"};

constexpr size_t FIELDS = COUNT + 2 * SOME_COUNT + FEW_COUNT;

// field names: schema order is all plain, all optional, all array, all optional array fields
inline const std::vector<std::string>& fieldNames()
{
    static const std::vector<std::string> names = []() {
        std::vector<std::string> n;
        for (const std::string_view s : NAMES)
        {
            n.push_back(std::string(s));
        }
        for (const std::string_view s : SOME_NAMES)
        {
            n.push_back(std::string(s) + "Opt");
        }
        for (const std::string_view s : SOME_NAMES)
        {
            n.push_back(std::string(s) + "Arr");
        }
        for (const std::string_view s : FEW_NAMES)
        {
            n.push_back(std::string(s) + "OptArr");
        }
        return n;
    }();
    return names;
}

template <typename T, typename A>
using Vec = zserio::Vector<T, zserio::RebindAlloc<A, T>>;

template <typename A, typename L>
struct Members;
template <typename A, typename... T>
struct Members<A, std::tuple<T...>>
{
    using Opt = std::tuple<zserio::BasicOptional<A, T>...>;
    using Arr = std::tuple<Vec<T, A>...>;
    using OptArr = std::tuple<zserio::BasicOptional<A, Vec<T, A>>...>;
};

template <typename A>
struct AllObj
{
    using allocator_type = A;

    AllObj() :
            AllObj(A())
    {}
    explicit AllObj(const A& a) :
            plain(std::allocator_arg, a),
            opt(std::allocator_arg, a),
            arr(std::allocator_arg, a),
            optArr(std::allocator_arg, a)
    {}
    AllObj(const AllObj&) = default;
    AllObj(AllObj&&) = default;
    AllObj& operator=(const AllObj&) = default;
    AllObj& operator=(AllObj&&) = default;
    ~AllObj() = default;
    AllObj(const AllObj& o, const A& a) :
            plain(std::allocator_arg, a, o.plain),
            opt(std::allocator_arg, a, o.opt),
            arr(std::allocator_arg, a, o.arr),
            optArr(std::allocator_arg, a, o.optArr)
    {}
    AllObj(AllObj&& o, const A& a) :
            plain(std::allocator_arg, a, std::move(o.plain)),
            opt(std::allocator_arg, a, std::move(o.opt)),
            arr(std::allocator_arg, a, std::move(o.arr)),
            optArr(std::allocator_arg, a, std::move(o.optArr))
    {}

    Types<A> plain;
    typename Members<A, SomeTypes<A>>::Opt opt;
    typename Members<A, SomeTypes<A>>::Arr arr;
    typename Members<A, FewTypes<A>>::OptArr optArr;
};

template <typename TUPLE, typename F, size_t... I>
void withIndex(TUPLE& t, size_t index, F& f, std::index_sequence<I...>)
{
    ((index == I ? f(std::get<I>(t)) : void()), ...);
}
// calls f(member) with the plain, optional, array or optional array member of a field
template <typename O, typename F>
void withField(O& o, size_t field, F&& f)
{
    constexpr auto some = std::make_index_sequence<SOME_COUNT>();
    if (field < COUNT)
    {
        withIndex(o.plain, field, f, std::make_index_sequence<COUNT>());
    }
    else if ((field -= COUNT) < SOME_COUNT)
    {
        withIndex(o.opt, field, f, some);
    }
    else if ((field -= SOME_COUNT) < SOME_COUNT)
    {
        withIndex(o.arr, field, f, some);
    }
    else
    {
        withIndex(o.optArr, field - SOME_COUNT, f, std::make_index_sequence<FEW_COUNT>());
    }
}
inline int fieldIndex(std::string_view name)
{
    static const std::map<std::string, int, std::less<>> index = []() {
        std::map<std::string, int, std::less<>> m;
        for (const std::string& n : fieldNames())
        {
            const int i = static_cast<int>(m.size());
            m[n] = i;
        }
        return m;
    }();
    const auto it = index.find(name);
    return it == index.end() ? -1 : it->second;
}

template <typename T>
struct IsVec : std::false_type
{};
template <typename T, typename A>
struct IsVec<std::vector<T, A>> : std::true_type
{};
template <typename A>
struct IsVec<std::vector<uint8_t, A>> : std::false_type
{};
template <typename T>
inline constexpr bool is_vec = IsVec<T>::value;
template <typename T>
inline constexpr bool is_opt = zserio::detail::is_optional<T>::value;

// what a value is in JSON, read directly -------------------------------------------------------------------------
template <typename T>
J toJ(const T& v);
template <typename A>
J bytesJ(const A& bytes)
{
    J a = jref::jarr();
    for (const uint8_t b : bytes)
    {
        a.kids.push_back(jref::jint(b));
    }
    return a;
}

template <typename E>
struct Names; // of enums and bitmasks: static std::vector<std::pair<std::string, int64_t>> get()

inline std::string maskText(uint64_t v, const std::vector<std::pair<std::string, int64_t>>& names)
{
    std::string s;
    uint64_t seen = 0;
    for (const auto& n : names)
    {
        const auto m = static_cast<uint64_t>(n.second);
        if (m == 0 ? v == 0 : (v & m) == m)
        {
            s += (s.empty() ? "" : " | ") + n.first;
            seen |= m;
        }
    }
    if (s.empty())
    {
        return vh::str(v, " /* no match */");
    }
    return seen == v ? s : vh::str(v, " /* partial match: ", s, " */");
}

// numbers instead of names of enums and bitmasks
struct Form
{
    bool numbers = false;
};
template <typename T>
J toJ(const T& v, const Form& form)
{
    if constexpr (is_opt<T>)
    {
        return v.has_value() ? toJ(*v, form) : jref::jnull();
    }
    else if constexpr (is_vec<T>)
    {
        J a = jref::jarr();
        for (const auto& e : v)
        {
            a.kids.push_back(toJ(e, form));
        }
        return a;
    }
    else if constexpr (std::is_same_v<T, zserio::Bool>)
    {
        return jref::jbool(static_cast<bool>(v));
    }
    else if constexpr (zserio::is_numeric_wrapper_v<T>)
    {
        if constexpr (std::is_floating_point_v<typename T::ValueType>)
        {
            return jref::jdbl(static_cast<typename T::ValueType>(v));
        }
        else
        {
            return jref::jint(static_cast<typename T::ValueType>(v));
        }
    }
    else if constexpr (std::is_enum_v<T>)
    {
        const auto raw = static_cast<std::underlying_type_t<T>>(v);
        if (!form.numbers)
        {
            for (const auto& n : Names<T>::get())
            {
                if (n.second == static_cast<int64_t>(raw))
                {
                    return jref::jstr(n.first);
                }
            }
            return jref::jstr(vh::str(static_cast<int64_t>(raw), " /* no match */"));
        }
        return jref::jint(raw);
    }
    else if constexpr (zserio::is_bitmask_v<T>)
    {
        const auto raw = static_cast<uint64_t>(static_cast<typename T::ZserioType::ValueType>(v.getValue()));
        return form.numbers ? jref::jint(raw) : jref::jstr(maskText(raw, Names<T>::get()));
    }
    else if constexpr (std::is_constructible_v<std::string_view, const T&>)
    {
        return jref::jstr(std::string(std::string_view(v)));
    }
    else if constexpr (std::is_constructible_v<zserio::Span<const uint8_t>, const T&>)
    {
        J o = jref::jobj();
        add(o, "buffer", bytesJ(v));
        return o;
    }
    else if constexpr (std::is_class_v<T> && std::is_same_v<std::decay_t<decltype(std::declval<const T&>())>, T> &&
            std::is_same_v<T, Buf<typename T::allocator_type>>)
    {
        J o = jref::jobj();
        std::vector<uint8_t> bytes(v.getBuffer(), v.getBuffer() + v.getByteSize());
        add(o, "buffer", bytesJ(bytes));
        add(o, "bitSize", jref::jint(static_cast<ref::i128>(v.getBitSize())));
        return o;
    }
    else
    {
        return structJ(v, form); // found by the namespace of the allocator's objects
    }
}
template <typename A>
J structJ(const AllObj<A>& o, const Form& form)
{
    J j = jref::jobj();
    for (size_t i = 0; i < FIELDS; ++i)
    {
        withField(o, i, [&](const auto& m) { add(j, fieldNames()[i], toJ(m, form)); });
    }
    return j;
}

// random values ---------------------------------------------------------------------------------------------------
struct Fill
{
    vh::Rng& r;
    size_t maxArr = 3;
    bool utf8 = true;
    bool anyMask = true;

    template <typename T>
    void operator()(T& v)
    {
        if constexpr (is_opt<T>)
        {
            v.reset();
            if (r.flip())
            {
                v.emplace();
                (*this)(*v);
            }
        }
        else if constexpr (is_vec<T>)
        {
            v.clear();
            const size_t n = r.below(maxArr + 1);
            for (size_t i = 0; i < n; ++i)
            {
                v.emplace_back();
                (*this)(v.back());
            }
        }
        else if constexpr (std::is_same_v<T, zserio::Bool>)
        {
            v = r.flip();
        }
        else if constexpr (zserio::is_numeric_wrapper_v<T>)
        {
            using V = typename T::ValueType;
            if constexpr (std::is_same_v<T, zserio::Float16>)
            {
                v = T(static_cast<float>(ref::halfValue(static_cast<uint16_t>(r.ubits(16)))));
            }
            else if constexpr (std::is_same_v<V, float>)
            {
                v = T(ops::randomF32(r));
            }
            else if constexpr (std::is_same_v<V, double>)
            {
                v = T(r.flip() ? static_cast<double>(ops::randomF32(r))
                               : (r.flip() ? ref::bitsF64(r.ubits(64))
                                           : static_cast<double>(static_cast<int64_t>(r.sbits(64))) / 8));
            }
            else
            {
                v = T(number<T>());
            }
        }
        else if constexpr (std::is_enum_v<T>)
        {
            const auto n = Names<T>::get();
            v = static_cast<T>(n[r.below(n.size())].second);
        }
        else if constexpr (zserio::is_bitmask_v<T>)
        {
            using V = typename T::ZserioType::ValueType;
            const uint64_t bits = anyMask && r.chance(30) ? r.ubits(sizeof(V) * 8) : r.below(1U << Names<T>::get().size());
            v = T(typename T::ZserioType(static_cast<V>(bits)));
        }
        else if constexpr (std::is_constructible_v<std::string_view, const T&>)
        {
            const std::string s = tobj::Gen(r, utf8 ? tobj::Gen::UTF8 : tobj::Gen::ANY).str();
            v.assign(s.data(), s.size());
        }
        else if constexpr (std::is_constructible_v<zserio::Span<const uint8_t>, const T&>)
        {
            const std::string s = ops::randomBlob(r, 40);
            v.assign(s.begin(), s.end());
        }
        else if constexpr (std::is_same_v<T, Buf<typename T::allocator_type>>)
        {
            std::string s = ops::randomBlob(r, 20);
            const size_t bits = s.empty() ? 0 : s.size() * 8 - r.below(8);
            s = ops::maskBlob(std::move(s), bits);
            v = T(zserio::Span<const uint8_t>(reinterpret_cast<const uint8_t*>(s.data()), s.size()), bits,
                    v.get_allocator());
        }
        else
        {
            fillStruct(v, *this);
        }
    }
    template <typename T>
    typename T::ValueType number()
    {
        using V = typename T::ValueType;
        const auto lo = static_cast<V>(std::numeric_limits<V>::min());
        const auto hi = static_cast<V>(std::numeric_limits<V>::max());
        V mn = lo;
        V mx = hi;
        if constexpr (!IsDyn<T>::value)
        {
            mn = static_cast<V>(zserio::NumericLimits<T>::min());
            mx = static_cast<V>(zserio::NumericLimits<T>::max());
        }
        switch (r.below(6))
        {
        case 0:
            return mn;
        case 1:
            return mx;
        case 2:
            return static_cast<V>(r.below(2));
        default:
        {
            const ref::i128 span = static_cast<ref::i128>(mx) - static_cast<ref::i128>(mn) + 1;
            const auto x = static_cast<ref::i128>(r.next());
            ref::i128 y = span > (ref::i128(1) << 63) ? x : x % span;
            if (r.flip())
            {
                y >>= r.below(62);
            }
            y += r.flip() ? mn : 0;
            return static_cast<V>(y < mn || y > mx ? mn : y);
        }
        }
    }
    template <typename T>
    struct IsDyn : std::false_type
    {};
    template <typename V>
    struct IsDyn<zserio::detail::DynIntWrapper<V>> : std::true_type
    {};
};
template <typename A>
void fillStruct(AllObj<A>& o, Fill& fill, size_t percent)
{
    for (size_t i = 0; i < FIELDS; ++i)
    {
        if (fill.r.chance(static_cast<unsigned>(percent)))
        {
            withField(o, i, [&](auto& m) { fill(m); });
        }
    }
}

} // namespace allobj

// the generated part ----------------------------------------------------------------------------------------------
namespace zserio
{

template <typename A>
class View<allobj::AllObj<A>>
{
public:
    explicit View(const allobj::AllObj<A>& data) noexcept :
            m_data(&data)
    {}
    const allobj::AllObj<A>& zserioData() const
    {
        return *m_data;
    }

private:
    const allobj::AllObj<A>* m_data;
};

namespace detail
{

template <typename T>
using ElemOf = std::decay_t<decltype(*std::declval<T&>())>; // of optional

template <typename T, typename A>
const IBasicTypeInfo<A>& allobjElementTypeInfo()
{
    if constexpr (allobj::is_opt<T>)
    {
        return allobjElementTypeInfo<ElemOf<T>, A>();
    }
    else if constexpr (allobj::is_vec<T>)
    {
        return allobjElementTypeInfo<typename T::value_type, A>();
    }
    else
    {
        return typeInfo<T, A>();
    }
}
template <typename T>
constexpr bool allobjIsArray()
{
    if constexpr (allobj::is_opt<T>)
    {
        return allobjIsArray<ElemOf<T>>();
    }
    else
    {
        return allobj::is_vec<T>;
    }
}

template <typename A>
struct TypeInfo<allobj::AllObj<A>, A>
{
    static const IBasicTypeInfo<A>& get()
    {
        static const std::string_view templateName;
        static const Span<BasicTemplateArgumentInfo<A>> templateArguments;
        static const std::vector<BasicFieldInfo<A>> fields = makeFields();
        static const Span<BasicParameterInfo<A>> parameters;
        static const Span<BasicFunctionInfo<A>> functions;
        static const StructTypeInfo<A> info = {"allobj.AllObj",
                [](const A& allocator) -> IBasicReflectableDataPtr<A> {
                    return std::allocate_shared<ReflectableDataOwner<allobj::AllObj<A>>>(allocator);
                },
                templateName, templateArguments, Span<const BasicFieldInfo<A>>(fields), parameters, functions};
        return info;
    }
    static std::vector<BasicFieldInfo<A>> makeFields()
    {
        std::vector<BasicFieldInfo<A>> v;
        const allobj::AllObj<A> o{A()};
        for (size_t i = 0; i < allobj::FIELDS; ++i)
        {
            allobj::withField(o, i, [&](const auto& m) {
                using T = std::decay_t<decltype(m)>;
                v.push_back(BasicFieldInfo<A>{allobj::fieldNames()[i], allobjElementTypeInfo<T, A>(), {}, false, {}, {}, {},
                        allobj::is_opt<T>, {}, {}, allobjIsArray<T>(), {}, false, false});
            });
        }
        return v;
    }
};

template <typename T, typename A>
auto allobjReflect(T& v, const A& alloc) -> std::conditional_t<std::is_const_v<T>, IBasicReflectableDataConstPtr<A>, IBasicReflectableDataPtr<A>>
{
    using V = std::remove_const_t<T>;
    if constexpr (allobj::is_opt<V>)
    {
        if (!v.has_value())
        {
            return nullptr;
        }
        return allobjReflect(*v, alloc);
    }
    else if constexpr (allobj::is_vec<V>)
    {
        return reflectableArray(v, alloc);
    }
    else
    {
        return reflectable(v, alloc);
    }
}

template <typename A>
struct AllObjReflect
{
    using Obj = allobj::AllObj<A>;

    [[noreturn]] static void missing(std::string_view name)
    {
        throw CppRuntimeException("Field '") << name << "' doesn't exist in 'AllObj'!";
    }
    static size_t index(std::string_view name)
    {
        const int i = allobj::fieldIndex(name);
        if (i < 0)
        {
            missing(name);
        }
        return static_cast<size_t>(i);
    }
    template <typename T>
    static T make(const A& alloc)
    {
        if constexpr (std::is_constructible_v<T, const A&> && !is_numeric_wrapper_v<T> && !is_bitmask_v<T>)
        {
            return T(alloc);
        }
        else
        {
            return T();
        }
    }
};

template <typename A>
struct AllObjConst : AllObjReflect<A>
{
    using Obj = allobj::AllObj<A>;
    using AllObjReflect<A>::index;

    static IBasicReflectableDataConstPtr<A> create(const Obj& value, const A& allocator)
    {
        class Impl : public ReflectableDataConstAllocatorHolderBase<A>
        {
        public:
            using Base = ReflectableDataConstAllocatorHolderBase<A>;
            using Base::get_allocator;
            using Base::getAnyValue;
            using Base::getField;

            explicit Impl(const Obj& object, const A& alloc = {}) :
                    Base(typeInfo<Obj>(), alloc),
                    m_object(object)
            {}
            IBasicReflectableDataConstPtr<A> getField(std::string_view name) const override
            {
                IBasicReflectableDataConstPtr<A> p;
                allobj::withField(m_object, index(name), [&](const auto& m) { p = allobjReflect(m, get_allocator()); });
                return p;
            }
            BasicAny<A> getAnyValue(const A& alloc) const override
            {
                return BasicAny<A>(std::cref(m_object), alloc);
            }

        private:
            const Obj& m_object;
        };
        return std::allocate_shared<Impl>(allocator, value);
    }
};

template <typename A>
struct AllObjMutable : AllObjReflect<A>
{
    using Obj = allobj::AllObj<A>;
    using AllObjReflect<A>::index;

    static IBasicReflectableDataPtr<A> create(Obj& value, const A& allocator)
    {
        class Impl : public ReflectableDataAllocatorHolderBase<A>
        {
        public:
            using Base = ReflectableDataAllocatorHolderBase<A>;
            using Base::get_allocator;
            using Base::getAnyValue;
            using Base::getField;

            explicit Impl(Obj& object, const A& alloc = {}) :
                    Base(typeInfo<Obj>(), alloc),
                    m_object(object)
            {}
            IBasicReflectableDataConstPtr<A> getField(std::string_view name) const override
            {
                return get(name);
            }
            IBasicReflectableDataPtr<A> getField(std::string_view name) override
            {
                return get(name);
            }
            IBasicReflectableDataPtr<A> get(std::string_view name) const
            {
                IBasicReflectableDataPtr<A> p;
                allobj::withField(m_object, index(name), [&](auto& m) { p = allobjReflect(m, get_allocator()); });
                return p;
            }
            void setField(std::string_view name, const BasicAny<A>& value) override
            {
                allobj::withField(m_object, index(name), [&](auto& m) {
                    using T = std::decay_t<decltype(m)>;
                    if constexpr (allobj::is_opt<T>)
                    {
                        if (value.template isType<std::nullptr_t>())
                        {
                            m.reset();
                            return;
                        }
                        m = ReflectableUtil::fromAny<ElemOf<T>>(value);
                    }
                    else
                    {
                        m = ReflectableUtil::fromAny<T>(value);
                    }
                });
            }
            IBasicReflectableDataPtr<A> createField(std::string_view name) override
            {
                allobj::withField(m_object, index(name), [&](auto& m) {
                    using T = std::decay_t<decltype(m)>;
                    if constexpr (allobj::is_opt<T>)
                    {
                        m = AllObjReflect<A>::template make<ElemOf<T>>(get_allocator());
                    }
                    else
                    {
                        m = AllObjReflect<A>::template make<T>(get_allocator());
                    }
                });
                return get(name);
            }
            BasicAny<A> getAnyValue(const A& alloc) const override
            {
                return BasicAny<A>(std::cref(m_object), alloc);
            }
            BasicAny<A> getAnyValue(const A& alloc) override
            {
                return BasicAny<A>(std::ref(m_object), alloc);
            }

        private:
            Obj& m_object;
        };
        return std::allocate_shared<Impl>(allocator, value);
    }
};

template <typename A>
struct Reflectable<allobj::AllObj<A>, A>
{
    static IBasicReflectableDataConstPtr<A> create(const allobj::AllObj<A>& value, const A& allocator)
    {
        return AllObjConst<A>::create(value, allocator);
    }
    static IBasicReflectableDataPtr<A> create(allobj::AllObj<A>& value, const A& allocator)
    {
        return AllObjMutable<A>::create(value, allocator);
    }
};

} // namespace detail
} // namespace zserio
