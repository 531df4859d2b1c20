// the parts of C29 of one allocator A, included by the c29_<allocator>.cpp files
#include "c29.h"

namespace c29
{
namespace
{

enum class Color : int8_t
{
    RED = -3,
    GREEN = 0,
    BLUE = 90
};
using Tr = life::Tracked<24>;
using TrThrow = life::Tracked<40, false>;

template <typename A>
Str<A> text(vh::Rng& r, const A& a)
{
    Str<A> s{a};
    for (uint64_t n = r.chance(30) ? 20 + r.below(120) : r.below(6); n > 0; --n)
    {
        s.push_back(static_cast<char>(r.chance(20) ? r.below(256) : 'a' + r.below(3)));
    }
    return s;
}
template <typename A>
zserio::BasicBitBuffer<A> bits(vh::Rng& r, const A& a)
{
    const size_t n = r.chance(20) ? 100 + r.below(300) : r.below(20);
    Vec<A, uint8_t> v(zserio::RebindAlloc<A, uint8_t>{a});
    v.resize((n + 7) / 8);
    for (auto& b : v)
    {
        b = static_cast<uint8_t>(r.below(3) * 85);
    }
    return zserio::BasicBitBuffer<A>(std::move(v), n);
}

// values of a type: with an allocator, and what identifies a value
template <typename T>
struct Value;
#define C29_NUM(T) \
    template <> \
    struct Value<T> \
    { \
        static constexpr const char* name = #T; \
        template <typename A> \
        static T make(vh::Rng& r, const A&) \
        { \
            return T(static_cast<T::ValueType>(r.flip() ? r.below(3) : r.ubits(4))); \
        } \
        static std::string key(const T& v) \
        { \
            return vh::str(static_cast<double>(static_cast<T::ValueType>(v))); \
        } \
    };
C29_NUM(zserio::UInt5)
C29_NUM(zserio::Int64)
C29_NUM(zserio::VarSize)
C29_NUM(zserio::Bool)
C29_NUM(zserio::Float32)
C29_NUM(zserio::Float64)
C29_NUM(zserio::DynInt16)
C29_NUM(zserio::VarInt32)
template <>
struct Value<Color>
{
    static constexpr const char* name = "enum";
    template <typename A>
    static Color make(vh::Rng& r, const A&)
    {
        static const Color all[] = {Color::RED, Color::GREEN, Color::BLUE};
        return r.pick(all);
    }
    static std::string key(const Color& v)
    {
        return vh::str(static_cast<int>(v));
    }
};
template <size_t N, bool NT, int ID>
struct Value<life::Tracked<N, NT, ID>>
{
    static constexpr const char* name = NT ? "tracked" : "tracked throwing move";
    template <typename A>
    static life::Tracked<N, NT, ID> make(vh::Rng& r, const A&)
    {
        return life::Tracked<N, NT, ID>(static_cast<int>(r.below(4)));
    }
    static std::string key(const life::Tracked<N, NT, ID>& v)
    {
        return vh::str(v.v());
    }
};
template <typename AL>
struct Value<std::basic_string<char, std::char_traits<char>, AL>>
{
    static constexpr const char* name = "string";
    template <typename A>
    static auto make(vh::Rng& r, const A& a)
    {
        return text<A>(r, a);
    }
    template <typename T>
    static std::string key(const T& v)
    {
        return std::string(v.data(), v.size());
    }
};
template <typename AL>
struct Value<zserio::BasicBitBuffer<AL>>
{
    static constexpr const char* name = "bit buffer";
    template <typename A>
    static auto make(vh::Rng& r, const A& a)
    {
        return bits<A>(r, a);
    }
    template <typename T>
    static std::string key(const T& v)
    {
        std::string s;
        for (size_t i = 0; i < v.getBitSize(); ++i)
        {
            s += ((v.getBuffer()[i / 8] >> (7 - i % 8)) & 1U) != 0 ? '1' : '0';
        }
        return s;
    }
};
template <typename E, typename AL>
struct Value<std::vector<E, AL>>
{
    static constexpr const char* name = "vector";
    template <typename A>
    static auto make(vh::Rng& r, const A& a)
    {
        std::vector<E, AL> v{AL(a)};
        for (uint64_t n = r.below(5); n > 0; --n)
        {
            if constexpr (std::is_same_v<E, uint8_t>)
            {
                v.push_back(static_cast<uint8_t>(r.below(2) * 255));
            }
            else
            {
                v.push_back(Value<E>::make(r, a));
            }
        }
        return v;
    }
    static std::string key(const std::vector<E, AL>& v)
    {
        std::string s;
        for (const auto& e : v)
        {
            if constexpr (std::is_same_v<E, uint8_t>)
            {
                s += vh::str(static_cast<int>(e), ",");
            }
            else
            {
                s += Value<E>::key(e) + ",";
            }
        }
        return s;
    }
};
template <typename AL, typename E>
struct Value<zserio::BasicOptional<AL, E>>
{
    static constexpr const char* name = "optional";
    template <typename A>
    static auto make(vh::Rng& r, const A& a)
    {
        zserio::BasicOptional<AL, E> o{AL(a)};
        if (r.chance(70))
        {
            o.emplace(Value<E>::make(r, a));
        }
        return o;
    }
    static std::string key(const zserio::BasicOptional<AL, E>& v)
    {
        return v.has_value() ? "+" + Value<E>::key(*v) : std::string("-");
    }
};
template <typename A>
struct Value<Part<A>>
{
    static constexpr const char* name = "structure";
    static auto make(vh::Rng& r, const A& a)
    {
        Part<A> p(a);
        p.n = zserio::UInt8(static_cast<uint8_t>(r.below(3)));
        p.name = text<A>(r, a);
        return p;
    }
    static std::string key(const Part<A>& v)
    {
        return vh::str(static_cast<int>(v.n), " ") + std::string(v.name.data(), v.name.size());
    }
};

template <typename T, typename = void>
struct UsesAlloc : std::false_type
{};
template <typename T>
struct UsesAlloc<T, std::void_t<decltype(std::declval<const T&>().get_allocator())>> : std::true_type
{};
template <typename T>
struct IsOptional : std::false_type
{};
template <typename A, typename T>
struct IsOptional<zserio::BasicOptional<A, T>> : std::true_type
{};

// a slot of the model: presence and value; unknown after the value has been moved from
struct Model
{
    bool present = true;
    bool known = true;
    std::string key;
};

template <typename A, typename T>
void wrapper(vh::Case& c)
{
    using Ext = zserio::Extended<T>;
    using K = life::Kit<A>;
    constexpr bool THROWS = std::is_same_v<T, TrThrow> || std::is_same_v<T, Tr>;
    vh::Rng& r = c.rng;
    life::Resources res;
    const std::string what = vh::str("Extended<", Value<T>::name, "> ", K::name);
    std::string log;
    const auto bad = [&](const char* key, const std::string& d) {
        vh::Pause p;
        c.fail(vh::str("wrapper/", key), vh::str(what, ": ", d, " after ", log));
    };
    {
        constexpr size_t N = 4;
        const auto alloc = [&](uint64_t i) { return K::make(res, static_cast<int>(i)); };
        const auto value = [&](uint64_t i) -> T { return Value<T>::make(r, alloc(i)); };
        std::unique_ptr<Ext> s[N];
        Model m[N];
        const auto put = [&](size_t i, bool present, std::string key) {
            m[i].present = present;
            m[i].known = true;
            m[i].key = std::move(key);
        };
        const auto allocated = [&](size_t i, uint64_t a, const char* key) {
            if constexpr (UsesAlloc<T>::value)
            {
                const A got(s[i]->value().get_allocator());
                if (K::id(res, got) != K::norm(static_cast<int>(a)))
                {
                    bad(key, vh::str("allocator ", K::id(res, got), " instead of ", a));
                }
            }
        };
        for (size_t i = 0; i < N; ++i)
        {
            const T v = value(r.below(2));
            s[i] = std::make_unique<Ext>(v);
            put(i, true, Value<T>::key(v));
        }
        const size_t steps = 4 + r.below(c.thorough ? 60 : 25);
        for (size_t n = 0; n < steps; ++n)
        {
            const size_t i = r.below(N);
            const size_t j = r.below(N);
            const uint64_t a = r.below(2);
            const auto op = r.below(20);
            log += vh::str(op, ":", i, j, a, " ");
            if constexpr (THROWS)
            {
                if (r.chance(10))
                {
                    life::st().throwIn = static_cast<int64_t>(1 + r.below(3));
                }
            }
            try
            {
                switch (op)
                {
                case 0:
                    if constexpr (std::is_default_constructible_v<T>)
                    {
                        s[i] = std::make_unique<Ext>();
                        life::st().throwIn = -1;
                        put(i, true, Value<T>::key(T()));
                        c.count("default_constructed");
                    }
                    break;
                case 1:
                {
                    const T v = value(a);
                    s[i] = std::make_unique<Ext>(v);
                    life::st().throwIn = -1;
                    put(i, true, Value<T>::key(v));
                    break;
                }
                case 2:
                {
                    T v = value(a);
                    const std::string k = Value<T>::key(v);
                    s[i] = std::make_unique<Ext>(std::move(v));
                    life::st().throwIn = -1;
                    put(i, true, k);
                    allocated(i, a, "allocator-of-value");
                    break;
                }
                case 3:
                    if constexpr (UsesAlloc<T>::value)
                    {
                        // from an allocator: an empty value with the allocator
                        s[i] = std::make_unique<Ext>(typename T::allocator_type(alloc(a)));
                        put(i, true, Value<T>::key(T(typename T::allocator_type(alloc(a)))));
                        allocated(i, a, "allocator-constructor");
                        c.count("from_allocator");
                    }
                    break;
                case 4:
                    if constexpr (UsesAlloc<T>::value)
                    {
                        // value and allocator
                        const T v = value(r.below(2));
                        s[i] = std::make_unique<Ext>(v, typename T::allocator_type(alloc(a)));
                        put(i, true, Value<T>::key(v));
                        allocated(i, a, "value-allocator-constructor");
                        c.count("from_value_and_allocator");
                    }
                    break;
                case 5:
                {
                    // copy, also of a not constant one
                    auto e = r.flip() ? std::make_unique<Ext>(*s[j]) : std::make_unique<Ext>(std::as_const(*s[j]));
                    life::st().throwIn = -1;
                    s[i] = std::move(e);
                    m[i] = m[j];
                    c.count("copied");
                    break;
                }
                case 6:
                {
                    auto e = std::make_unique<Ext>(std::move(*s[j]));
                    life::st().throwIn = -1;
                    const Model old = m[j];
                    m[j].known = false;
                    s[i] = std::move(e);
                    m[i] = old;
                    c.count("moved");
                    break;
                }
                case 7:
                    if constexpr (UsesAlloc<T>::value)
                    {
                        const auto al = typename T::allocator_type(alloc(a));
                        auto e = r.flip() ? std::make_unique<Ext>(*s[j], al) : std::make_unique<Ext>(std::as_const(*s[j]), al);
                        s[i] = std::move(e);
                        m[i] = m[j];
                        allocated(i, a, "allocator-copy-constructor");
                        c.count("copied_with_allocator");
                    }
                    break;
                case 8:
                    if constexpr (UsesAlloc<T>::value)
                    {
                        auto e = std::make_unique<Ext>(std::move(*s[j]), typename T::allocator_type(alloc(a)));
                        const Model old = m[j];
                        m[j].known = false;
                        s[i] = std::move(e);
                        m[i] = old;
                        allocated(i, a, "allocator-move-constructor");
                        c.count("moved_with_allocator");
                    }
                    break;
                case 9:
                {
                    const Ext& from = *s[j];
                    m[i].known = m[i].known && i == j;
                    *s[i] = from;
                    life::st().throwIn = -1;
                    m[i] = m[j];
                    c.count("assigned");
                    break;
                }
                case 10:
                    if (i != j)
                    {
                        const Model old = m[j];
                        m[j].known = false;
                        m[i].known = false;
                        *s[i] = std::move(*s[j]);
                        life::st().throwIn = -1;
                        m[i] = old;
                        c.count("move_assigned");
                    }
                    break;
                case 11:
                {
                    // a change of the value does not change the presence
                    T v = value(a);
                    const std::string k = Value<T>::key(v);
                    m[i].known = false;
                    const auto way = r.below(3);
                    if (way == 0)
                    {
                        s[i]->value() = v;
                    }
                    else if (way == 1)
                    {
                        **s[i] = v;
                    }
                    else
                    {
                        *(s[i]->operator->()) = std::move(v);
                    }
                    life::st().throwIn = -1;
                    put(i, m[i].present, k);
                    break;
                }
                case 12:
                case 13:
                    s[i]->setPresent(op == 12);
                    m[i].present = op == 12;
                    break;
                case 14:
                    if (i != j && m[i].known && m[j].known && !THROWS)
                    {
                        bool ok = true;
                        if constexpr (UsesAlloc<T>::value)
                        {
                            ok = K::swapUnequal || s[i]->value().get_allocator() == s[j]->value().get_allocator();
                        }
                        if (ok)
                        {
                            std::swap(*s[i], *s[j]);
                            std::swap(m[i], m[j]);
                            c.count("swapped");
                        }
                    }
                    break;
                case 15:
                {
                    // in a vector which grows, and back
                    std::vector<Ext> v;
                    std::vector<Model> w;
                    for (size_t x = 0; x < N; ++x)
                    {
                        if (m[x].known)
                        {
                            v.push_back(std::as_const(*s[x]));
                            w.push_back(m[x]);
                        }
                    }
                    if (v.size() > 1)
                    {
                        v.erase(v.begin());
                        w.erase(w.begin());
                    }
                    life::st().throwIn = -1;
                    for (size_t x = 0; x < v.size(); ++x)
                    {
                        if (v[x].isPresent() != w[x].present || Value<T>::key(v[x].value()) != w[x].key)
                        {
                            bad("vector", vh::str("element ", x));
                        }
                    }
                    c.count("vectors");
                    break;
                }
                default:
                    if constexpr (IsOptional<T>::value)
                    {
                        // through the wrapper to the optional
                        using E = std::decay_t<decltype(*std::declval<T&>())>;
                        if (r.flip())
                        {
                            (*s[i])->reset();
                            put(i, m[i].present, "-");
                        }
                        else
                        {
                            m[i].known = false;
                            const E e = Value<E>::make(r, alloc(a));
                            (*s[i])->emplace(e);
                            put(i, m[i].present, "+" + Value<E>::key(e));
                        }
                        c.count("optional_changes");
                    }
                    break;
                }
                life::st().throwIn = -1;
            }
            catch (const life::Boom&)
            {
                c.count("thrown");
                life::st().throwIn = -1;
                // a failed assignment can leave the presence or the value of either
                if (op == 9 || op == 10)
                {
                    m[i].present = s[i]->isPresent();
                }
            }
            // observers
            for (size_t x = 0; x < N; ++x)
            {
                const Ext& e = *s[x];
                if (e.isPresent() != m[x].present || static_cast<bool>(e) != m[x].present || static_cast<bool>(*s[x]) != m[x].present)
                {
                    bad("presence", vh::str("slot ", x, " is ", e.isPresent(), " instead of ", m[x].present));
                    m[x].present = e.isPresent();
                }
                if (&e.value() != &*e || &e.value() != e.operator->() || &s[x]->value() != &e.value() || &**s[x] != &e.value() ||
                        s[x]->operator->() != &e.value())
                {
                    bad("access", vh::str("slot ", x, " accesses different values"));
                }
                if (m[x].known)
                {
                    const std::string got = Value<T>::key(e.value());
                    if (got != m[x].key)
                    {
                        bad("value", vh::str("slot ", x, " is ", vh::hex(got.data(), std::min<size_t>(got.size(), 60)), " instead of ",
                                vh::hex(m[x].key.data(), std::min<size_t>(m[x].key.size(), 60))));
                        m[x].key = got;
                    }
                }
            }
            // comparison and hash codes
            const Ext& x = *s[i];
            const Ext& y = *s[j];
            if (m[i].known && m[j].known)
            {
                const bool eq = m[i].present == m[j].present && (!m[i].present || m[i].key == m[j].key);
                if ((x == y) != eq || (x != y) == eq)
                {
                    bad("equality", vh::str(i, " and ", j));
                }
                c.count(eq ? "equal_pairs" : "different_pairs");
                {
                    bool less = false;
                    bool greater = false;
                    if (m[i].present && m[j].present)
                    {
                        less = x.value() < y.value();
                        greater = y.value() < x.value();
                    }
                    else
                    {
                        less = !m[i].present && m[j].present;
                        greater = m[i].present && !m[j].present;
                    }
                    if ((x < y) != less || (x > y) != greater || (x <= y) != !greater || (x >= y) != !less)
                    {
                        bad("order", vh::str(i, " and ", j));
                    }
                }
            }
            if (m[i].known)
            {
                using zserio::calcHashCode;
                const uint32_t seed = static_cast<uint32_t>(r.next());
                if constexpr (std::is_enum_v<T>)
                {
                }
                else
                {
                    const uint32_t want = m[i].present ? calcHashCode(seed, x.value()) : seed;
                    if (calcHashCode(seed, x) != want)
                    {
                        bad("hash", vh::str("slot ", i));
                    }
                    if (std::hash<Ext>()(x) != calcHashCode(zserio::HASH_SEED, x))
                    {
                        bad("std-hash", vh::str("slot ", i));
                    }
                }
                // the generic accessor goes to the value
                if constexpr (IsOptional<T>::value)
                {
                    if (x->has_value())
                    {
                        if (&zserio::genericAccessor(x) != &x->value() || &zserio::genericAccessor(*s[i]) != &x->value())
                        {
                            bad("generic-accessor", "optional");
                        }
                    }
                }
                else if (&zserio::genericAccessor(x) != &x.value() || &zserio::genericAccessor(*s[i]) != &x.value())
                {
                    bad("generic-accessor", "value");
                }
            }
        }
    }
    if (!life::st().error.empty())
    {
        bad("lifetime", life::st().error);
    }
    if (!life::st().live.empty())
    {
        bad("left", vh::str(life::st().live.size(), " values left"));
        vh::Pause p;
        life::st().live.clear();
    }
    c.distinct(vh::hashStr(what + log));
}

// values of the fields of a structure, with the encoding of each
template <typename A, int VER>
struct Sample
{
    Obj<A, VER> o;
    Bits base;
    Bits field[FIELDS];
};
template <typename A, int VER>
void fill(vh::Rng& r, const A& a, Obj<A, VER>& o, Bits& base, Bits* f)
{
    const auto shortText = [&]() {
        auto s = text<A>(r, a);
        if (s.size() > 130)
        {
            s.resize(130);
        }
        return s;
    };
    o.base = zserio::UInt<5>(static_cast<uint8_t>(r.below(32)));
    o.name = shortText();
    base.put(static_cast<uint64_t>(o.base), 5);
    base.bytes(o.name.data(), o.name.size());
    *o.e0 = zserio::UInt<13>(static_cast<uint16_t>(r.below(8192)));
    f[0].put(static_cast<uint64_t>(*o.e0), 13);
    o.e1->reset();
    if (r.chance(60))
    {
        o.e1->emplace(shortText());
    }
    f[1].put(o.e1->has_value() ? 1 : 0, 1);
    if (o.e1->has_value())
    {
        f[1].bytes((**o.e1).data(), (**o.e1).size());
    }
    o.e2->clear();
    for (uint64_t n = r.below(5); n > 0; --n)
    {
        o.e2->push_back(zserio::Int16(static_cast<int16_t>(r.next())));
    }
    f[2].size(static_cast<uint32_t>(o.e2->size()));
    for (const auto& e : *o.e2)
    {
        f[2].put(static_cast<uint16_t>(static_cast<int16_t>(e)), 16);
    }
    o.e3->n = zserio::UInt8(static_cast<uint8_t>(r.next()));
    o.e3->name = shortText();
    f[3].put(static_cast<uint8_t>(o.e3->n), 8);
    f[3].bytes(o.e3->name.data(), o.e3->name.size());
    *o.e4 = bits<A>(r, a);
    f[4].size(static_cast<uint32_t>(o.e4->getBitSize()));
    for (size_t i = 0; i < o.e4->getBitSize(); ++i)
    {
        f[4].put((o.e4->getBuffer()[i / 8] >> (7 - i % 8)) & 1U, 1);
    }
    o.e5->reset();
    if (r.chance(60))
    {
        o.e5->emplace(zserio::VarInt32(static_cast<int32_t>(r.below(127)) - 63));
    }
    f[5].put(o.e5->has_value() ? 1 : 0, 1);
    if (o.e5->has_value())
    {
        const int32_t v = static_cast<int32_t>(**o.e5);
        f[5].put(v < 0 ? 1 : 0, 1);
        f[5].put(static_cast<uint64_t>(std::abs(v)) >= 64 ? 1 : 0, 1);
        f[5].put(static_cast<uint64_t>(std::abs(v)), 6);
    }
    *o.e6 = zserio::Bool(r.flip());
    f[6].put(static_cast<bool>(*o.e6) ? 1 : 0, 1);
    o.e7->clear();
    for (uint64_t n = r.below(5); n > 0; --n)
    {
        o.e7->push_back(static_cast<uint8_t>(r.next()));
    }
    f[7].size(static_cast<uint32_t>(o.e7->size()));
    for (const auto e : *o.e7)
    {
        f[7].put(e, 8);
    }
}

inline std::string packBits(const std::string& s)
{
    std::string b((s.size() + 7) / 8, '\0');
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] == '1')
        {
            b[i / 8] = static_cast<char>(static_cast<uint8_t>(b[i / 8]) | (0x80U >> (i % 8)));
        }
    }
    return b;
}

// whether field i is equal
template <typename A, int V1, int V2>
bool same(const Obj<A, V1>& a, const Obj<A, V2>& b, int i)
{
    switch (i)
    {
    case 0:
        return *a.e0 == *b.e0;
    case 1:
        return Value<std::decay_t<decltype(*a.e1)>>::key(*a.e1) == Value<std::decay_t<decltype(*b.e1)>>::key(*b.e1);
    case 2:
        return *a.e2 == *b.e2;
    case 3:
        return a.e3->n == b.e3->n && a.e3->name == b.e3->name;
    case 4:
        return Value<std::decay_t<decltype(*a.e4)>>::key(*a.e4) == Value<std::decay_t<decltype(*b.e4)>>::key(*b.e4);
    case 5:
        return Value<std::decay_t<decltype(*a.e5)>>::key(*a.e5) == Value<std::decay_t<decltype(*b.e5)>>::key(*b.e5);
    case 6:
        return static_cast<bool>(*a.e6) == static_cast<bool>(*b.e6);
    default:
        return *a.e7 == *b.e7;
    }
}
template <typename A, int VER>
bool present(const Obj<A, VER>& o, int i)
{
    bool p = false;
    Obj<A, VER>::each([&](int k, auto m) {
        if (k == i)
        {
            p = (o.*m).isPresent();
        }
    });
    return p;
}

// data written with n of the fields, read by schema version VER (full encoding)
template <typename A, int VER>
void readBy(vh::Case& c, const Obj<A, FIELDS>& from, const std::string& data, const size_t* starts, const size_t* ends, int n, const A& alloc,
        bool truncated)
{
    vh::Rng& r = c.rng;
    using O = Obj<A, VER>;
    // what to expect of the data of this length
    const size_t size = data.size();
    int want = 0; // fields present
    bool fails = false;
    size_t baseEnd = starts[FIELDS];
    fails = size < baseEnd;
    size_t written = baseEnd;
    for (int i = 0; i < VER && !fails; ++i)
    {
        if (i >= n || starts[i] >= size)
        {
            // padding after the last field is not a field, but more data is
            break;
        }
        if (ends[i] > size)
        {
            fails = true;
            break;
        }
        ++want;
        written = ends[i];
    }
    const std::string bytes = packBits(data);
    const std::string text = vh::str("version ", VER, " reads ", size, " bits with ", n, " fields");
    const auto verify = [&](const O& o, const char* how) {
        if (o.base != from.base || o.name != from.name)
        {
            c.fail("read/base", text + " " + how);
        }
        for (int i = 0; i < FIELDS; ++i)
        {
            if (present(o, i) != (i < want))
            {
                c.fail("read/presence", vh::str(text, " ", how, " field ", i, " present ", present(o, i)));
            }
            else if (i < want && !same(o, from, i))
            {
                c.fail("read/value", vh::str(text, " ", how, " field ", i));
            }
        }
    };
    const auto rewrite = [&](const auto& buffer, const char* how) {
        std::string again;
        for (size_t i = 0; i < buffer.getBitSize(); ++i)
        {
            again += ((buffer.getBuffer()[i / 8] >> (7 - i % 8)) & 1U) != 0 ? '1' : '0';
        }
        if (again != data.substr(0, written))
        {
            c.fail("read/rewrite", vh::str(text, " ", how, " wrote ", again.size(), " bits instead of ", written));
        }
    };
    // exactly as long as the data so that a read behind it is seen
    zserio::Vector<uint8_t, A> exact(bytes.begin(), bytes.end(), alloc);
    const zserio::BasicBitBuffer<A> buffer(std::move(exact), size);
    try
    {
        const auto way = r.below(3);
        if (way == 0)
        {
            O o(alloc);
            (void)zserio::deserialize(buffer, o);
            if (fails)
            {
                c.fail("read/accepted", text);
                return;
            }
            verify(o, "deserialize");
            rewrite(zserio::serialize(o, alloc), "object");
            // copies keep the presence
            const O copy(o);
            verify(copy, "copy");
            const O other(o, alloc);
            verify(other, "allocator copy");
            c.check(copy == o && other == o, "read/copies", text);
            O target(alloc);
            target = std::move(o);
            verify(target, "moved");
        }
        else if (way == 1)
        {
            const zserio::DataView<O> view = zserio::deserialize<O>(buffer, alloc);
            if (fails)
            {
                c.fail("read/accepted", text);
                return;
            }
            verify(view.zserioData(), "data view");
            const zserio::View<O>& v = view;
            zserio::detail::ObjectTraits<O>::each(v, [&](int i, const auto& e) {
                if (e.isPresent() != (i < want))
                {
                    c.fail("read/view", vh::str(text, " field ", i));
                }
            });
            rewrite(zserio::serialize(view, alloc), "data view");
        }
        else if (size % 8 == 0)
        {
            O o(alloc);
            (void)zserio::deserializeFromBytes(zserio::Span<const uint8_t>(buffer.getBuffer(), size / 8), o);
            if (fails)
            {
                c.fail("read/accepted", text);
                return;
            }
            verify(o, "bytes");
            rewrite(zserio::serialize(o, alloc), "bytes");
        }
        c.count(truncated ? "truncated_read" : (n > VER ? "newer_read" : (n < VER ? "older_read" : "same_read")));
    }
    catch (const zserio::CppRuntimeException& e)
    {
        c.check(fails, "read/refused", vh::str(text, " ", e.what()));
        c.count("refused");
    }
}

template <typename A>
void versions(vh::Case& c)
{
    using K = life::Kit<A>;
    vh::Rng& r = c.rng;
    life::Resources res;
    {
        const A alloc = K::make(res, static_cast<int>(r.below(2)));
        Obj<A, FIELDS> o(alloc);
        Bits base;
        Bits field[FIELDS];
        fill<A, FIELDS>(r, alloc, o, base, field);
        const int n = static_cast<int>(r.below(FIELDS + 1));
        // new fields are present from the start
        for (int i = 0; i < FIELDS; ++i)
        {
            c.check(present(o, i), "write/default", vh::str(i));
        }
        Obj<A, FIELDS>::each([&](int i, auto m) { (o.*m).setPresent(i < n); });
        // a gap in the presence is refused
        if (n + 1 < FIELDS && r.chance(20))
        {
            auto gap = o;
            const int at = n + 1 + static_cast<int>(r.below(static_cast<uint64_t>(FIELDS - n - 1)));
            Obj<A, FIELDS>::each([&](int i, auto m) {
                if (i == at)
                {
                    (gap.*m).setPresent(true);
                }
            });
            bool refused = false;
            try
            {
                (void)zserio::serialize(gap, alloc);
            }
            catch (const zserio::ValidationException& e)
            {
                refused = std::string(e.what()).find("extended fields") != std::string::npos;
            }
            c.check(refused, "write/gap", vh::str(n, " ", at));
            c.count("gaps");
        }
        size_t starts[FIELDS + 1];
        size_t ends[FIELDS];
        Bits all = base;
        starts[FIELDS] = all.s.size();
        for (int i = 0; i < FIELDS; ++i)
        {
            all.align(8);
            starts[i] = all.s.size();
            all.s += field[i].s;
            ends[i] = all.s.size();
        }
        const std::string full = all.s.substr(0, n == 0 ? starts[FIELDS] : ends[n - 1]);
        const auto buffer = zserio::serialize(o, alloc);
        c.check(packBits(full) == std::string(reinterpret_cast<const char*>(buffer.getBuffer()), buffer.getByteSize()) && buffer.getBitSize() == full.size(),
                "write/encoding", vh::str(n, " fields ", buffer.getBitSize(), " bits instead of ", full.size()));
        const auto bytes = zserio::serializeToBytes(o, alloc);
        c.check(packBits(full) == std::string(reinterpret_cast<const char*>(bytes.data()), bytes.size()), "write/bytes", vh::str(n));
        c.count("written");
        if (n < FIELDS)
        {
            c.count("written_without_all");
        }
        const auto read = [&](const std::string& data, int fields, bool truncated) {
            readBy<A, 0>(c, o, data, starts, ends, fields, alloc, truncated);
            readBy<A, 1>(c, o, data, starts, ends, fields, alloc, truncated);
            readBy<A, 2>(c, o, data, starts, ends, fields, alloc, truncated);
            readBy<A, 3>(c, o, data, starts, ends, fields, alloc, truncated);
            readBy<A, 5>(c, o, data, starts, ends, fields, alloc, truncated);
            readBy<A, 6>(c, o, data, starts, ends, fields, alloc, truncated);
            readBy<A, 7>(c, o, data, starts, ends, fields, alloc, truncated);
            readBy<A, 8>(c, o, data, starts, ends, fields, alloc, truncated);
        };
        read(full, n, false);
        // the file has whole bytes
        Bits padded;
        padded.s = full;
        padded.align(8);
        read(padded.s, n, false);
        // all fields written, ends anywhere
        const size_t cuts = c.thorough ? 20 : 6;
        for (size_t k = 0; k < cuts; ++k)
        {
            size_t at = r.below(all.s.size() + 1);
            if (r.flip())
            {
                // about the boundaries
                const size_t f = r.below(FIELDS);
                at = (r.flip() ? starts[f] : ends[f]) + r.below(4);
                at = at < 2 ? 0 : at - 2;
                at = std::min(at, all.s.size());
            }
            read(all.s.substr(0, at), FIELDS, true);
        }
        c.distinct(vh::hashStr(full));
    }
    if (!life::st().error.empty())
    {
        c.fail("versions/memory", life::st().error);
    }
}

template <typename A>
void allWrappers(vh::Case& c)
{
    switch (c.idx % 17)
    {
    case 0:
        wrapper<A, zserio::UInt5>(c);
        break;
    case 1:
        wrapper<A, zserio::Int64>(c);
        break;
    case 2:
        wrapper<A, zserio::VarSize>(c);
        break;
    case 3:
        wrapper<A, zserio::Bool>(c);
        break;
    case 4:
        wrapper<A, zserio::Float32>(c);
        break;
    case 5:
        wrapper<A, zserio::Float64>(c);
        break;
    case 6:
        wrapper<A, zserio::DynInt16>(c);
        break;
    case 7:
        wrapper<A, Color>(c);
        break;
    case 8:
        wrapper<A, Tr>(c);
        break;
    case 9:
        wrapper<A, TrThrow>(c);
        break;
    case 10:
        wrapper<A, Str<A>>(c);
        break;
    case 11:
        wrapper<A, zserio::BasicBitBuffer<A>>(c);
        break;
    case 12:
        wrapper<A, Vec<A, zserio::Int64>>(c);
        break;
    case 13:
        wrapper<A, zserio::BasicBytes<A>>(c);
        break;
    case 14:
        wrapper<A, zserio::BasicOptional<A, zserio::Int64>>(c);
        break;
    case 15:
        wrapper<A, zserio::BasicOptional<A, Str<A>>>(c);
        break;
    default:
        wrapper<A, Part<A>>(c);
        break;
    }
}

} // namespace
} // namespace c29
