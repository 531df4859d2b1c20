// Laws of comparison and hashing of scalars, sequences, holders and generated objects.
#include "c15.h"

#include <array>
#include <cmath>
#include <limits>
#include <string>
#include <tuple>

#include "ops.h"
#include "zserio/ArrayView.h"
#include "zserio/BitBuffer.h"
#include "zserio/Bytes.h"
#include "zserio/Extended.h"
#include "zserio/Optional.h"
#include "zserio/String.h"
#include "zserio/Types.h"
#include "zserio/Variant.h"
#include "zserio/Vector.h"
#include "zserio/View.h"
#include "zserio/pmr/BitBuffer.h"
#include "zserio/ppmr/Optional.h"
#include "zserio/pmr/String.h"

namespace
{

using namespace c15;

// a value of 48 bytes (kept on the heap by holders), with all operators the holders use
struct Big
{
    std::array<int32_t, 12> a{};

    friend bool operator==(const Big& l, const Big& r)
    {
        return l.a == r.a;
    }
    friend bool operator!=(const Big& l, const Big& r)
    {
        return l.a != r.a;
    }
    friend bool operator<(const Big& l, const Big& r)
    {
        return l.a < r.a;
    }
    friend bool operator<=(const Big& l, const Big& r)
    {
        return !(r < l);
    }
    friend bool operator>=(const Big& l, const Big& r)
    {
        return !(l < r);
    }
    friend bool operator>(const Big& l, const Big& r)
    {
        return l.a > r.a;
    }
};

} // namespace

template <>
struct std::hash<Big>
{
    size_t operator()(const Big& b) const
    {
        return static_cast<size_t>(b.a[0]) * 31 + static_cast<size_t>(b.a[11]);
    }
};

namespace
{

// generators of values with their models: (model, value); equal models must give equal values and so on

template <typename T>
std::vector<T> numbers(vh::Rng& r, size_t n)
{
    using V = typename T::ValueType;
    std::vector<T> v;
    while (v.size() < n)
    {
        if (!v.empty() && r.chance(30))
        {
            v.push_back(v[r.below(v.size())]);
            continue;
        }
        if constexpr (std::is_same_v<V, bool>)
        {
            v.push_back(r.flip());
        }
        else if constexpr (std::is_floating_point_v<V>)
        {
            static const V special[] = {V(0), -V(0), V(1), V(-1), std::numeric_limits<V>::infinity(),
                    -std::numeric_limits<V>::infinity(), std::numeric_limits<V>::min(), std::numeric_limits<V>::denorm_min(),
                    -std::numeric_limits<V>::denorm_min(), std::numeric_limits<V>::max(), std::numeric_limits<V>::lowest(),
                    std::numeric_limits<V>::epsilon(), V(0.1)};
            if (r.chance(60))
            {
                v.push_back(special[r.below(sizeof special / sizeof special[0])]);
            }
            else
            {
                V d = 0;
                const uint64_t b = r.next();
                std::memcpy(&d, &b, sizeof d);
                v.push_back(std::isnan(d) ? V(0) : d);
            }
        }
        else
        {
            v.push_back(static_cast<V>(r.chance(50) ? static_cast<V>(r.below(5)) - static_cast<V>(2)
                                                    : static_cast<V>(r.ubits(64))));
            if (r.chance(20))
            {
                v.back() = r.flip() ? std::numeric_limits<V>::max() : std::numeric_limits<V>::min();
            }
        }
    }
    return v;
}

template <typename T>
std::string numText(const T& v)
{
    const typename T::ValueType x = v;
    return vh::str(x, std::is_floating_point_v<decltype(x)> && std::signbit(static_cast<double>(x)) ? " (sign)" : "");
}

// compares values of the built-in type
template <typename T>
int order(const T& a, const T& b)
{
    const typename T::ValueType x = a;
    const typename T::ValueType y = b;
    return x < y ? 1 : 0;
}
template <typename T>
bool same(const T& a, const T& b)
{
    const typename T::ValueType x = a;
    const typename T::ValueType y = b;
    return x == y;
}

template <typename T>
void holders(vh::Case& c, const std::string& what, const std::vector<T>& v, const std::function<bool(size_t, size_t)>& eq,
        const std::function<int(size_t, size_t)>& lt, const std::function<std::string(size_t)>& text);

#if C15_PART != 3
template <typename T>
void numericType(vh::Case& c, const char* name)
{
    const auto v = numbers<T>(c.rng, 9);
    const auto eq = [&](size_t i, size_t j) { return same(v[i], v[j]); };
    const auto lt = [&](size_t i, size_t j) { return order(v[i], v[j]); };
    const auto text = [&](size_t i) { return numText(v[i]); };
    all(c, name, v, eq, lt, text);
    for (const T& x : v)
    {
        c.distinct(vh::hashStr(name, vh::hashStr(numText(x))));
    }
    if constexpr (std::is_floating_point_v<typename T::ValueType>)
    {
        const T nan = std::numeric_limits<typename T::ValueType>::quiet_NaN();
        for (const T& x : v)
        {
            c.check(!(nan == x) && nan != x && !(nan < x) && !(nan > x) && !(nan <= x) && !(nan >= x) && !(x < nan), "nan",
                    numText(x));
        }
        c.check(!(nan == nan) && nan != nan, "nan-itself", name);
    }
    holders<T>(c, name, v, eq, lt, text);
    c.count("numeric_pools");
}

#endif

#if C15_PART == 1
using Numeric = std::tuple<zserio::Bool, zserio::Int5, zserio::Int16, zserio::UInt32, zserio::DynInt64, zserio::VarUInt16,
        zserio::Float32>;
#elif C15_PART == 2
using Numeric = std::tuple<zserio::UInt8, zserio::Int64, zserio::UInt64, zserio::VarSize, zserio::VarInt, zserio::Float16,
        zserio::Float64>;
#endif

#if C15_PART != 3
template <size_t I = 0, typename F>
void withNumeric(size_t k, F&& f)
{
    if constexpr (I < std::tuple_size_v<Numeric>)
    {
        if (k % std::tuple_size_v<Numeric> == I)
        {
            using T = std::tuple_element_t<I, Numeric>;
            f(static_cast<T*>(nullptr));
            return;
        }
        withNumeric<I + 1>(k, f);
    }
}

#endif

template <typename A1, typename A2, typename T>
void optionals(vh::Case& c, const std::string& what, const std::vector<T>& v, const std::function<bool(size_t, size_t)>& eq,
        const std::function<int(size_t, size_t)>& lt, const std::function<std::string(size_t)>& text)
{
    using O1 = zserio::BasicOptional<A1, T>;
    using O2 = zserio::BasicOptional<A2, T>;
    std::vector<O1> o;
    std::vector<O2> p;
    std::vector<int> idx; // of the value, -1 is none
    for (size_t i = 0; i < v.size(); ++i)
    {
        if (c.rng.chance(20))
        {
            idx.push_back(-1);
            o.emplace_back();
            if (c.rng.flip())
            {
                o.back() = v[i];
                o.back().reset(); // leaves bytes of the old value
            }
            p.emplace_back(std::nullopt);
        }
        else
        {
            idx.push_back(static_cast<int>(i));
            o.emplace_back(v[i]);
            p.emplace_back();
            p.back() = v[i];
        }
    }
    const auto oeq = [&](size_t i, size_t j) {
        return idx[i] < 0 || idx[j] < 0 ? (idx[i] < 0) == (idx[j] < 0) : eq(i, j);
    };
    const auto olt = [&](size_t i, size_t j) -> int {
        return idx[i] < 0 ? (idx[j] < 0 ? 0 : 1) : (idx[j] < 0 ? 0 : lt(i, j));
    };
    const auto otext = [&](size_t i) { return idx[i] < 0 ? std::string("none") : text(i); };
    const std::string w = "Optional<" + what + ">";
    all(c, w, o, oeq, olt, otext);
    std::vector<zserio::Extended<O1>> ext;
    std::vector<int> present;
    for (const O1& x : o)
    {
        ext.emplace_back(x);
        present.push_back(c.rng.chance(80) ? 1 : 0);
        ext.back().setPresent(present.back() != 0); // the value stays behind
    }
    all(c, "Extended<" + w + ">", ext,
            [&](size_t i, size_t j) { return present[i] == present[j] && (present[i] == 0 || oeq(i, j)); },
            [&](size_t i, size_t j) -> int {
                return present[i] == 0 ? present[j] : (present[j] == 0 ? 0 : olt(i, j));
            },
            [&](size_t i) { return present[i] == 0 ? std::string("absent") : otext(i); });
    // comparisons of different optionals, with values and with nullopt
    for (size_t i = 0; i < o.size(); ++i)
    {
        const bool none = idx[i] < 0;
        c.check((o[i] == std::nullopt) == none && (std::nullopt == o[i]) == none && (o[i] != std::nullopt) == !none &&
                        (std::nullopt != o[i]) == !none && !(o[i] < std::nullopt) && (std::nullopt < o[i]) == !none &&
                        (o[i] > std::nullopt) == !none && !(std::nullopt > o[i]) && (o[i] <= std::nullopt) == none &&
                        (std::nullopt <= o[i]) && (o[i] >= std::nullopt) && (std::nullopt >= o[i]) == none,
                (w + "/nullopt").c_str(), otext(i));
        for (size_t j = 0; j < o.size(); ++j)
        {
            const bool e = oeq(i, j);
            const bool l = o[i] < o[j];
            c.check((o[i] == p[j]) == e && (o[i] != p[j]) == !e && (o[i] < p[j]) == l && (p[j] > o[i]) == l &&
                            (p[j] <= o[i]) == !l && (o[i] >= p[j]) == !l && (p[i] < o[j]) == l && (p[i] == o[j]) == e,
                    (w + "/mixed-allocators").c_str(), vh::str(otext(i), " and ", otext(j)));
            // v[j] itself is always there
            const bool ve = !none && eq(i, j);
            const bool vl = none || v[i] < v[j];
            const bool vg = !none && v[j] < v[i];
            c.check((o[i] == v[j]) == ve && (v[j] == o[i]) == ve && (o[i] != v[j]) == !ve && (v[j] != o[i]) == !ve &&
                            (o[i] < v[j]) == vl && (v[j] > o[i]) == vl && (o[i] > v[j]) == vg && (v[j] < o[i]) == vg &&
                            (o[i] <= v[j]) == !vg && (v[j] >= o[i]) == !vg && (o[i] >= v[j]) == !vl && (v[j] <= o[i]) == !vl,
                    (w + "/value").c_str(), vh::str(otext(i), " and value ", text(j)));
        }
    }
    c.count("optional_pools");
}

template <typename T>
struct IsDyn : std::false_type
{};
template <typename V>
struct IsDyn<zserio::detail::DynIntWrapper<V>> : std::true_type
{};

enum class Idx : uint8_t
{
    A,
    B,
    C
};

template <typename T>
void holders(vh::Case& c, const std::string& what, const std::vector<T>& v, const std::function<bool(size_t, size_t)>& eq,
        const std::function<int(size_t, size_t)>& lt, const std::function<std::string(size_t)>& text)
{
    switch (c.rng.below(4))
    {
    case 0:
        optionals<std::allocator<uint8_t>, zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>>(c, what, v, eq, lt, text);
        break;
    case 1:
    {
        std::vector<zserio::Extended<T>> ext;
        std::vector<int> present;
        for (const T& x : v)
        {
            present.push_back(c.rng.chance(70) ? 1 : 0);
            if (c.rng.flip())
            {
                ext.emplace_back(x);
            }
            else
            {
                ext.emplace_back();
                *ext.back() = x;
            }
            ext.back().setPresent(present.back() != 0);
        }
        all(c, "Extended<" + what + ">", ext,
                [&](size_t i, size_t j) { return present[i] == present[j] && (present[i] == 0 || eq(i, j)); },
                [&](size_t i, size_t j) -> int {
                    return present[i] == 0 ? present[j] : (present[j] == 0 ? 0 : lt(i, j));
                },
                [&](size_t i) { return present[i] == 0 ? std::string("absent") : text(i); });
        c.count("extended_pools");
        break;
    }
    case 2:
    {
        // two alternatives of the same type: the index matters
        using V = zserio::BasicVariant<std::allocator<uint8_t>, Idx, T, std::monostate, T>;
        std::vector<V> var;
        std::vector<int> idx;
        for (const T& x : v)
        {
            idx.push_back(static_cast<int>(c.rng.below(3)));
            switch (idx.back())
            {
            case 0:
                var.emplace_back(zserio::in_place_index<Idx::A>, x);
                break;
            case 1:
                var.emplace_back(zserio::in_place_index<Idx::B>);
                break;
            default:
                var.emplace_back();
                var.back().template emplace<Idx::C>(x);
                break;
            }
        }
        all(c, "Variant<" + what + ">", var,
                [&](size_t i, size_t j) { return idx[i] == idx[j] && (idx[i] == 1 || eq(i, j)); },
                [&](size_t i, size_t j) -> int {
                    return idx[i] != idx[j] ? (idx[i] < idx[j] ? 1 : 0) : (idx[i] == 1 ? 0 : lt(i, j));
                },
                [&](size_t i) { return vh::str("#", idx[i], " ", text(i)); });
        c.count("variant_pools");
        break;
    }
    default:
    {
        // arrays of up to three of the values
        std::vector<zserio::Vector<T>> arr;
        std::vector<std::vector<size_t>> idx;
        for (size_t i = 0; i < v.size(); ++i)
        {
            arr.emplace_back();
            idx.emplace_back();
            if (c.rng.flip())
            {
                arr.back().reserve(10);
            }
            for (size_t n = c.rng.below(4); n > 0; --n)
            {
                idx.back().push_back(c.rng.below(v.size()));
                arr.back().push_back(v[idx.back().back()]);
            }
        }
        const auto aeq = [&](size_t i, size_t j) {
            if (idx[i].size() != idx[j].size())
            {
                return false;
            }
            for (size_t k = 0; k < idx[i].size(); ++k)
            {
                if (!eq(idx[i][k], idx[j][k]))
                {
                    return false;
                }
            }
            return true;
        };
        const auto alt = [&](size_t i, size_t j) -> int {
            for (size_t k = 0; k < idx[i].size() && k < idx[j].size(); ++k)
            {
                if (!eq(idx[i][k], idx[j][k]))
                {
                    return lt(idx[i][k], idx[j][k]);
                }
            }
            return idx[i].size() < idx[j].size() ? 1 : 0;
        };
        const auto atext = [&](size_t i) {
            std::string s = "[";
            for (const size_t k : idx[i])
            {
                s += text(k) + " ";
            }
            return s + "]";
        };
        all(c, "Vector<" + what + ">", arr, aeq, alt, atext);
        if constexpr (!std::is_same_v<T, Big> && !IsDyn<T>::value)
        {
            using View = zserio::ArrayView<const T>;
            std::vector<View> views;
            for (const auto& a : arr)
            {
                views.emplace_back(zserio::Span<const T>(a.data(), a.size()));
            }
            laws(c, "ArrayView<" + what + ">", views, aeq, alt, atext);
            hashLaws(c, "ArrayView<" + what + ">", views.size(), aeq,
                    [&](size_t i) { return zserio::calcHashCode(zserio::HASH_SEED, views[i]); }, atext);
        }
        c.count("array_pools");
        break;
    }
    }
}

#if C15_PART == 3
// pool of byte sequences which differ in one byte, in length or not at all
std::vector<std::string> blobs(vh::Rng& r, size_t n)
{
    std::vector<std::string> v;
    while (v.size() < n)
    {
        std::string s = v.empty() || r.chance(15) ? r.bytes(r.below(20)) : v[r.below(v.size())];
        switch (r.below(6))
        {
        case 0:
            s += static_cast<char>(r.chance(50) ? 0 : r.below(256));
            break;
        case 1:
            if (!s.empty())
            {
                s.pop_back();
            }
            break;
        case 2:
        case 3:
            if (!s.empty())
            {
                s[r.flip() ? s.size() - 1 : r.below(s.size())] ^= static_cast<char>(1 << r.below(8));
            }
            break;
        default:
            break;
        }
        v.push_back(s);
    }
    return v;
}

// model of bit sequences: the bits as characters
std::string bitText(const std::string& bytes, size_t bits)
{
    std::string t;
    for (size_t i = 0; i < bits; ++i)
    {
        t += (static_cast<uint8_t>(bytes[i / 8]) >> (7 - i % 8)) & 1 ? '1' : '0';
    }
    return t;
}

template <typename B>
void bitBuffers(vh::Case& c, const char* name)
{
    vh::Rng& r = c.rng;
    std::vector<B> v;
    std::vector<std::string> model;
    const auto base = blobs(r, 4);
    for (size_t i = 0; i < 9; ++i)
    {
        const std::string& s = base[r.below(base.size())];
        size_t bits = s.size() * 8;
        bits -= bits == 0 ? 0 : r.below(std::min<size_t>(bits, 18));
        std::string bytes = s.substr(0, (bits + 7) / 8);
        if (bits % 8 != 0)
        {
            // whatever is behind the last bit does not matter
            bytes.back() = static_cast<char>((bytes.back() & (0xFF << (8 - bits % 8))) | static_cast<int>(r.below(1U << (8 - bits % 8))));
        }
        model.push_back(bitText(bytes, bits));
        if (r.flip())
        {
            bytes += r.bytes(r.below(3)); // the buffer may be longer
        }
        const zserio::Span<const uint8_t> span(reinterpret_cast<const uint8_t*>(bytes.data()), bytes.size());
        v.emplace_back(span, bits);
        c.distinct(vh::hashStr(model.back(), 3));
    }
    const auto eq = [&](size_t i, size_t j) { return model[i] == model[j]; };
    const auto lt = [&](size_t i, size_t j) { return model[i] < model[j] ? 1 : 0; };
    const auto text = [&](size_t i) { return model[i]; };
    all(c, name, v, eq, lt, text);
    using View = zserio::BasicBitBufferView<typename B::allocator_type>;
    const std::vector<View> views(v.begin(), v.end());
    laws(c, std::string(name) + "View", views, eq, lt, text);
    hashLaws(c, std::string(name) + "View", v.size(), eq, [&](size_t i) { return std::hash<View>()(views[i]); }, text);
    for (size_t i = 0; i < v.size(); ++i)
    {
        c.check(std::hash<View>()(views[i]) == std::hash<B>()(v[i]), "hash-of-view", model[i]);
    }
    holders<B>(c, name, v, eq, lt, text);
    c.count("bit_buffer_pools");
}

void sequences(vh::Case& c)
{
    const auto v = blobs(c.rng, 9);
    const auto eq = [&](size_t i, size_t j) { return v[i] == v[j]; };
    const auto lt = [&](size_t i, size_t j) { return v[i] < v[j] ? 1 : 0; }; // as unsigned bytes
    const auto text = [&](size_t i) { return "x" + vh::hex(v[i].data(), v[i].size()); };
    for (const auto& s : v)
    {
        c.distinct(vh::hashStr(s, 1));
    }
    switch (c.idx % 5)
    {
    case 0:
    {
        std::vector<zserio::String> s(v.begin(), v.end());
        all(c, "String", s, eq, lt, text);
        holders<zserio::String>(c, "String", s, eq, lt, text);
        break;
    }
    case 1:
    {
        std::vector<zserio::pmr::String> s(v.begin(), v.end());
        all(c, "pmr::String", s, eq, lt, text);
        std::vector<std::string_view> sv(v.begin(), v.end());
        all(c, "string_view", sv, eq, lt, text);
        for (size_t i = 0; i < v.size(); ++i)
        {
            c.check(zserio::calcHashCode(7, s[i]) == zserio::calcHashCode(7, sv[i]), "hash-of-view", text(i));
        }
        break;
    }
    case 2:
    {
        std::vector<zserio::Bytes> b;
        for (const auto& s : v)
        {
            b.emplace_back(s.begin(), s.end());
        }
        all(c, "Bytes", b, eq, lt, text);
        holders<zserio::Bytes>(c, "Bytes", b, eq, lt, text);
        std::vector<zserio::BytesView> views(b.begin(), b.end());
        using zserio::operator==;
        using zserio::operator!=;
        using zserio::operator<;
        using zserio::operator>;
        using zserio::operator<=;
        using zserio::operator>=;
        laws(c, "BytesView", views, eq, lt, text);
        hashLaws(c, "BytesView", views.size(), eq, [&](size_t i) { return zserio::calcHashCode(9, views[i]); }, text);
        for (size_t i = 0; i < v.size(); ++i)
        {
            c.check(zserio::calcHashCode(7, b[i]) == zserio::calcHashCode(7, views[i]), "hash-of-view", text(i));
        }
        break;
    }
    case 3:
        bitBuffers<zserio::BitBuffer>(c, "BitBuffer");
        break;
    default:
        bitBuffers<zserio::pmr::BitBuffer>(c, "pmr::BitBuffer");
        break;
    }
    c.count("sequence_pools");
}

void bigValues(vh::Case& c)
{
    std::vector<Big> v;
    for (size_t i = 0; i < 8; ++i)
    {
        Big b;
        b.a[0] = static_cast<int32_t>(c.rng.below(2));
        b.a[11] = static_cast<int32_t>(c.rng.below(3)) - 1;
        v.push_back(b);
        c.distinct(vh::mix(77, static_cast<uint64_t>(b.a[0] * 8 + b.a[11])));
    }
    holders<Big>(
            c, "Big", v, [&](size_t i, size_t j) { return v[i].a == v[j].a; },
            [&](size_t i, size_t j) { return v[i].a < v[j].a ? 1 : 0; },
            [&](size_t i) { return vh::str(v[i].a[0], ",", v[i].a[11]); });
}

template <typename T>
void dynViews(vh::Case& c, const char* name)
{
    using V = zserio::View<T>;
    std::vector<V> v;
    const auto nums = numbers<T>(c.rng, 9);
    std::vector<unsigned> bits;
    for (const T& x : nums)
    {
        bits.push_back(1 + static_cast<unsigned>(c.rng.below(3)) * static_cast<unsigned>(sizeof(typename T::ValueType) * 4 - 1));
        v.emplace_back(x, static_cast<uint8_t>(bits.back()));
    }
    const auto eq = [&](size_t i, size_t j) { return bits[i] == bits[j] && same(nums[i], nums[j]); };
    const auto text = [&](size_t i) { return vh::str(numText(nums[i]), ":", bits[i]); };
    laws(c, name, v, eq, NO_ORDER, text);
    hashLaws(c, name, v.size(), eq, [&](size_t i) { return std::hash<V>()(v[i]); }, text);
    c.count("dyn_view_pools");
}

#endif

} // namespace

#if C15_PART == 1
VH_SECTION(numeric_a, 1400, 140000)
#elif C15_PART == 2
VH_SECTION(numeric_b, 1400, 140000)
#endif
#if C15_PART != 3
{
    withNumeric(c.idx, [&](auto* t) {
        numericType<std::remove_pointer_t<decltype(t)>>(
                c, vh::str("numeric", c.idx % std::tuple_size_v<Numeric>).c_str());
    });
}
#else
VH_SECTION(sequences, 3000, 100000)
{
    sequences(c);
}

VH_SECTION(big_values, 400, 40000)
{
    bigValues(c);
}

VH_SECTION(dyn_views, 160, 16000)
{
    switch (c.idx % 4)
    {
    case 0:
        dynViews<zserio::DynInt8>(c, "View<DynInt8>");
        break;
    case 1:
        dynViews<zserio::DynUInt16>(c, "View<DynUInt16>");
        break;
    case 2:
        dynViews<zserio::DynInt64>(c, "View<DynInt64>");
        break;
    default:
        dynViews<zserio::DynUInt64>(c, "View<DynUInt64>");
        break;
    }
}

VH_SECTION(objects_std, 1500, 45000)
{
    c15::run_std(c);
}
VH_SECTION(objects_pmr, 900, 15000)
{
    c15::run_pmr(c);
}
VH_SECTION(objects_ppmr, 900, 15000)
{
    c15::run_ppmr(c);
}
#endif
