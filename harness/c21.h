// Tree creator: random histories of valid and refused calls next to a model object changed directly. The recursion of the
// driver (compound / array) is the reference state machine.
#pragma once
#include <memory_resource>

#include "c18.h"
#include "allobj.h"
#include "zserio/ZserioTreeCreator.h"

namespace c21
{

using c18::i128;

// default resource which refuses the n-th allocation while armed
class FailRes : public std::pmr::memory_resource
{
public:
    int64_t failIn = 0;
    uint64_t failed = 0;

private:
    void* do_allocate(size_t n, size_t al) override
    {
        if (failIn > 0 && --failIn == 0)
        {
            ++failed;
            throw std::bad_alloc();
        }
        return std::pmr::new_delete_resource()->allocate(n, al);
    }
    void do_deallocate(void* p, size_t n, size_t al) override
    {
        std::pmr::new_delete_resource()->deallocate(p, n, al);
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override
    {
        return this == &o;
    }
};

struct Arg
{
    enum K
    {
        INT,
        BOOLEAN,
        FLOATING,
        TEXT,
        BITS,
        BYTES
    };
    K k = INT;
    int form = 0;
    i128 num = 0;
    double d = 0;
    std::string s;
    size_t bits = 0;

    std::string text() const
    {
        static const char* names[] = {"int", "bool", "float", "text", "bits", "bytes"};
        std::string t = vh::str(names[k], "/", form, " ");
        if (k == INT || k == BOOLEAN)
        {
            t += num < 0 || num <= INT64_MAX ? vh::str(static_cast<int64_t>(num)) : vh::str(static_cast<uint64_t>(num));
        }
        else if (k == FLOATING)
        {
            char b[50];
            snprintf(b, sizeof b, "%.17g", d);
            t += b;
        }
        else
        {
            t += k == TEXT ? "'" + s.substr(0, 40) + "'" : vh::hex(s.data(), std::min<size_t>(s.size(), 20));
        }
        return t;
    }
};

template <typename V>
Arg intArg(int form, vh::Rng& r)
{
    // a value of type V near an interesting power of two
    Arg a;
    a.form = form;
    i128 x = 0;
    switch (r.below(4))
    {
    case 0:
        x = static_cast<i128>(r.range(-3, 3));
        break;
    case 1:
    {
        static const int e[] = {7, 8, 15, 16, 31, 32, 53, 62, 63, 64};
        x = (i128(1) << e[r.below(std::size(e))]) + r.range(-2, 1);
        x = r.flip() ? -x : x;
        break;
    }
    case 2:
        x = static_cast<i128>(r.ubits(64)) - (r.flip() ? i128(1) << 63 : 0);
        x >>= r.below(64);
        break;
    default:
        x = r.range(-300, 300);
        break;
    }
    // into the type
    const i128 lo = static_cast<i128>(std::numeric_limits<V>::min());
    const i128 hi = static_cast<i128>(std::numeric_limits<V>::max());
    if (x < lo || x > hi)
    {
        x = r.flip() ? lo : (r.flip() ? hi : static_cast<i128>(r.below(2)));
    }
    a.num = x;
    return a;
}

constexpr int INT_FORMS = 15;
inline Arg someInt(vh::Rng& r)
{
    const int f = static_cast<int>(r.below(INT_FORMS));
    switch (f)
    {
    case 0:
        return intArg<int8_t>(f, r);
    case 1:
        return intArg<int16_t>(f, r);
    case 2:
        return intArg<int32_t>(f, r);
    case 3:
        return intArg<int64_t>(f, r);
    case 4:
        return intArg<uint8_t>(f, r);
    case 5:
        return intArg<uint16_t>(f, r);
    case 6:
        return intArg<uint32_t>(f, r);
    case 7:
        return intArg<uint64_t>(f, r);
    case 8:
        return intArg<long long>(f, r);
    case 9:
        return intArg<unsigned long long>(f, r);
    case 10: // UInt5
    {
        Arg a;
        a.form = f;
        a.num = static_cast<i128>(r.below(32));
        return a;
    }
    case 11: // Int31
    {
        Arg a;
        a.form = f;
        a.num = r.sbits(31);
        return a;
    }
    case 12: // VarUInt
        return intArg<uint64_t>(f, r);
    case 13: // VarInt
        return intArg<int64_t>(f, r);
    default: // UInt16
        return intArg<uint16_t>(f, r);
    }
}

template <typename A>
struct Names
{};

template <typename A, typename F>
void put(const Arg& a, const A& alloc, F&& f)
{
    switch (a.k)
    {
    case Arg::BOOLEAN:
        if (a.form == 0)
        {
            f(a.num != 0);
        }
        else
        {
            f(zserio::Bool(a.num != 0));
        }
        break;
    case Arg::FLOATING:
        if (a.form == 0)
        {
            f(static_cast<float>(a.d));
        }
        else if (a.form == 1)
        {
            f(a.d);
        }
        else if (a.form == 2)
        {
            f(zserio::Float32(static_cast<float>(a.d)));
        }
        else
        {
            f(zserio::Float64(a.d));
        }
        break;
    case Arg::TEXT:
        if (a.form == 0)
        {
            f(a.s.c_str());
        }
        else if (a.form == 1)
        {
            f(std::string_view(a.s));
        }
        else if (a.form == 2)
        {
            const zserio::BasicString<zserio::RebindAlloc<A, char>> s(a.s.data(), a.s.size(), alloc);
            f(s);
        }
        else
        {
            f(zserio::BasicString<zserio::RebindAlloc<A, char>>(a.s.data(), a.s.size(), alloc));
        }
        break;
    case Arg::BITS:
    {
        const zserio::BasicBitBuffer<zserio::RebindAlloc<A, uint8_t>> b(
                zserio::Span<const uint8_t>(reinterpret_cast<const uint8_t*>(a.s.data()), a.s.size()), a.bits, alloc);
        if (a.form == 0)
        {
            f(b);
        }
        else
        {
            f(zserio::BasicBitBuffer<zserio::RebindAlloc<A, uint8_t>>(b));
        }
        break;
    }
    case Arg::BYTES:
    {
        const std::vector<uint8_t, zserio::RebindAlloc<A, uint8_t>> b(a.s.begin(), a.s.end(), alloc);
        if (a.form == 0)
        {
            f(b);
        }
        else
        {
            f(std::vector<uint8_t, zserio::RebindAlloc<A, uint8_t>>(b));
        }
        break;
    }
    default:
        switch (a.form)
        {
        case 0:
            f(static_cast<int8_t>(a.num));
            break;
        case 1:
            f(static_cast<int16_t>(a.num));
            break;
        case 2:
            f(static_cast<int32_t>(a.num));
            break;
        case 3:
            f(static_cast<int64_t>(a.num));
            break;
        case 4:
            f(static_cast<uint8_t>(a.num));
            break;
        case 5:
            f(static_cast<uint16_t>(a.num));
            break;
        case 6:
            f(static_cast<uint32_t>(a.num));
            break;
        case 7:
            f(static_cast<uint64_t>(a.num));
            break;
        case 8:
            f(static_cast<long long>(a.num));
            break;
        case 9:
            f(static_cast<unsigned long long>(a.num));
            break;
        case 10:
            f(zserio::UInt5(static_cast<uint8_t>(a.num)));
            break;
        case 11:
            f(zserio::Int31(static_cast<int32_t>(a.num)));
            break;
        case 12:
            f(zserio::VarUInt(static_cast<uint64_t>(a.num)));
            break;
        case 13:
            f(zserio::VarInt(static_cast<int64_t>(a.num)));
            break;
        default:
            f(zserio::UInt16(static_cast<uint16_t>(a.num)));
            break;
        }
    }
}

template <typename V>
bool fits(i128 x)
{
    return x >= static_cast<i128>(std::numeric_limits<V>::min()) && x <= static_cast<i128>(std::numeric_limits<V>::max());
}

// names joined by '|' with optional spaces
template <typename V>
bool maskText(const std::string& s, V& out)
{
    if (s.empty())
    {
        return false;
    }
    using Z = typename V::ZserioType;
    using U = typename Z::ValueType;
    if (s[0] >= '0' && s[0] <= '9')
    {
        i128 x = 0;
        for (size_t i = 0; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i)
        {
            x = x * 10 + (s[i] - '0');
            if (x > UINT64_MAX)
            {
                return false;
            }
        }
        if (!fits<U>(x))
        {
            return false;
        }
        out = V(Z(static_cast<U>(x)));
        return true;
    }
    uint64_t bits = 0;
    size_t at = 0;
    while (true)
    {
        size_t end = s.find('|', at);
        std::string name = s.substr(at, end == std::string::npos ? end : end - at);
        if (at != 0)
        {
            name.erase(0, name.find_first_not_of(' '));
        }
        if (end != std::string::npos)
        {
            name.erase(name.find_last_not_of(' ') + 1);
        }
        bool found = false;
        for (const auto& [n, v] : allobj::Names<V>::get())
        {
            if (n == name)
            {
                bits |= static_cast<uint64_t>(v);
                found = true;
            }
        }
        if (!found)
        {
            return false;
        }
        if (end == std::string::npos)
        {
            break;
        }
        at = end + 1;
    }
    out = V(Z(static_cast<U>(bits)));
    return true;
}

// the value a field of type V has to get from the argument, if the argument is acceptable
template <typename V>
bool convert(const Arg& a, V& out)
{
    if constexpr (std::is_same_v<V, zserio::Bool>)
    {
        if (a.k != Arg::BOOLEAN)
        {
            return false;
        }
        out = a.num != 0;
        return true;
    }
    else if constexpr (zserio::is_numeric_wrapper_v<V>)
    {
        using U = typename V::ValueType;
        if constexpr (std::is_floating_point_v<U>)
        {
            if (a.k == Arg::INT)
            {
                out = V(static_cast<U>(a.num));
                return true;
            }
            if (a.k == Arg::FLOATING)
            {
                out = V(a.form % 2 == 0 ? static_cast<U>(static_cast<float>(a.d)) : static_cast<U>(a.d));
                return true;
            }
            return false;
        }
        else
        {
            if (a.k != Arg::INT || !fits<U>(a.num))
            {
                return false;
            }
            out = V(static_cast<U>(a.num));
            return true;
        }
    }
    else if constexpr (std::is_enum_v<V>)
    {
        for (const auto& [name, value] : allobj::Names<V>::get())
        {
            if (a.k == Arg::INT ? a.num == value : a.k == Arg::TEXT && a.s == name)
            {
                out = static_cast<V>(value);
                return true;
            }
        }
        return false;
    }
    else if constexpr (zserio::is_bitmask_v<V>)
    {
        using Z = typename V::ZserioType;
        using U = typename Z::ValueType;
        if (a.k == Arg::INT && fits<U>(a.num))
        {
            out = V(Z(static_cast<U>(a.num)));
            return true;
        }
        return a.k == Arg::TEXT && maskText(a.s, out);
    }
    else if constexpr (c18::is_text<V>)
    {
        if (a.k != Arg::TEXT)
        {
            return false;
        }
        const size_t n = a.form == 0 ? std::strlen(a.s.c_str()) : a.s.size();
        out.assign(a.s.data(), n);
        return true;
    }
    else if constexpr (c18::is_bytes<V>)
    {
        if (a.k != Arg::BYTES)
        {
            return false;
        }
        out.assign(a.s.begin(), a.s.end());
        return true;
    }
    else if constexpr (c18::IsBuf<V>::value)
    {
        if (a.k != Arg::BITS)
        {
            return false;
        }
        out = V(zserio::Span<const uint8_t>(reinterpret_cast<const uint8_t*>(a.s.data()), a.s.size()), a.bits);
        return true;
    }
    else
    {
        return false;
    }
}

// arguments: mostly of a kind which can be converted to the type
template <typename V>
Arg argFor(vh::Rng& r)
{
    Arg a;
    static const Arg::K any[] = {Arg::INT, Arg::BOOLEAN, Arg::FLOATING, Arg::TEXT, Arg::BITS, Arg::BYTES};
    a.k = r.pick(any);
    bool text = false;
    if (r.chance(75))
    {
        if constexpr (std::is_same_v<V, zserio::Bool>)
        {
            a.k = Arg::BOOLEAN;
        }
        else if constexpr (zserio::is_numeric_wrapper_v<V>)
        {
            a.k = std::is_floating_point_v<typename V::ValueType> && r.flip() ? Arg::FLOATING : Arg::INT;
        }
        else if constexpr (std::is_enum_v<V> || zserio::is_bitmask_v<V>)
        {
            a.k = r.flip() ? Arg::INT : Arg::TEXT;
        }
        else if constexpr (c18::is_text<V>)
        {
            a.k = Arg::TEXT;
        }
        else if constexpr (c18::is_bytes<V>)
        {
            a.k = Arg::BYTES;
        }
        else if constexpr (c18::IsBuf<V>::value)
        {
            a.k = Arg::BITS;
        }
    }
    switch (a.k)
    {
    case Arg::INT:
        a = someInt(r);
        if constexpr (std::is_enum_v<V> || zserio::is_bitmask_v<V>)
        {
            if (r.flip())
            {
                a = Arg();
                a.form = static_cast<int>(r.below(4));
                a.num = static_cast<i128>(r.range(-2, 4));
            }
        }
        break;
    case Arg::BOOLEAN:
        a.num = r.flip() ? 1 : 0;
        a.form = static_cast<int>(r.below(2));
        break;
    case Arg::FLOATING:
    {
        static const double special[] = {0.0, -0.0, 1.0, 0.1, -2.5, 1e30, 3.4028234663852886e38, 1e-40, INFINITY, -INFINITY, NAN};
        a.d = r.flip() ? r.pick(special) : static_cast<double>(r.sbits(53)) / 1024;
        a.form = static_cast<int>(r.below(4));
        break;
    }
    case Arg::TEXT:
        a.form = static_cast<int>(r.below(4));
        if constexpr (std::is_enum_v<V> || zserio::is_bitmask_v<V>)
        {
            text = true;
            const auto names = allobj::Names<V>::get();
            const auto name = [&]() { return names[r.below(names.size())].first; };
            switch (r.below(8))
            {
            case 0:
            {
                static const char* wrong[] = {"", "one", "ON", "ONEE", "ONE1", " ONE", "X", "-1", "+1", "_", "READX", "REA", "read", " READ", "|READ", "READ|X",
                        "READ | WRITEX", "READ | | WRITE", "X | READ", "WRITE,READ"};
                a.s = r.pick(wrong);
                break;
            }
            case 1:
            {
                static const char* numeric[] = {"0", "1", "2", "3", "7", "255", "256", "65535", "65536", "4294967295", "4294967296", "18446744073709551615",
                        "18446744073709551616", "99999999999999999999999", "3 /* no match */", "00000000001"};
                a.s = r.pick(numeric);
                break;
            }
            default:
                a.s = name();
                for (uint64_t n = zserio::is_bitmask_v<V> ? r.below(4) : 0; n > 0; --n)
                {
                    static const char* bars[] = {" | ", "|", " |", "| ", "   |  "};
                    a.s += r.pick(bars) + name();
                }
                break;
            }
        }
        if (!text)
        {
            a.s = r.chance(10) ? std::string("1") : ops::randomBlob(r, 30);
        }
        break;
    case Arg::BITS:
        a.s = ops::randomBlob(r, 12);
        a.bits = a.s.empty() ? 0 : a.s.size() * 8 - r.below(8);
        a.form = static_cast<int>(r.below(2));
        break;
    default:
        a.s = ops::randomBlob(r, 30);
        a.form = static_cast<int>(r.below(2));
        break;
    }
    return a;
}

enum Pos
{
    ROOT,
    FIELD,
    ELEMENT
};

template <typename A, typename G>
struct Run
{
    using Creator = zserio::BasicZserioTreeCreator<A>;
    using Str = zserio::BasicString<zserio::RebindAlloc<A, char>>;
    using TI = zserio::IBasicTypeInfo<A>;

    vh::Case& c;
    Creator& cr;
    A alloc;
    G& gen;
    FailRes* res = nullptr;
    std::string log;
    bool bad = false;

    Str str(std::string_view s) const
    {
        return Str(s.data(), s.size(), alloc);
    }
    void did(const std::string& s)
    {
        if (log.size() < 900)
        {
            log += s + "; ";
        }
    }
    void fail(const char* key, const std::string& detail)
    {
        bad = true;
        c.fail(key, detail + " after " + log);
    }
    template <typename F>
    bool call(F&& f) // false: refused
    {
        c.eval();
        try
        {
            f();
        }
        catch (const zserio::CppRuntimeException&)
        {
            return false;
        }
        return true;
    }
    template <typename F>
    void refused(const char* key, F&& f)
    {
        c.count("refused");
        if (call(f))
        {
            fail(key, "not refused");
        }
    }
    // a call; with failing allocations first when armed: after each of them the position must not have changed
    template <typename F, typename P>
    bool attempt(F&& f, P&& position)
    {
        while (res != nullptr && c.rng.chance(60))
        {
            res->failIn = 1 + static_cast<int64_t>(c.rng.below(5));
            try
            {
                const bool ok = call(f);
                res->failIn = 0;
                return ok;
            }
            catch (const std::bad_alloc&)
            {
                res->failIn = 0;
                c.count("failed_allocations");
                did("bad_alloc");
                position();
            }
        }
        return call(f);
    }
    template <typename F, typename P>
    void must(const char* key, F&& f, P&& position)
    {
        if (!attempt(f, position))
        {
            fail(key, "refused");
        }
    }

    // calls which are never right inside a compound at this position
    void wrongInCompound(Pos pos, uint64_t k)
    {
        switch (k)
        {
        case 0:
            refused("begin-root-twice", [&]() { cr.beginRoot(); });
            break;
        case 1:
            refused("end-array-in-compound", [&]() { cr.endArray(); });
            break;
        case 2:
            refused("element-in-compound", [&]() { cr.beginCompoundElement(); });
            refused("value-element-in-compound", [&]() { cr.addValueElement(1); });
            refused("null-element-in-compound", [&]() { cr.addValueElement(nullptr); });
            break;
        case 3:
            refused("element-type-in-compound", [&]() { (void)cr.getElementType(); });
            break;
        case 4:
            if (pos != ROOT)
            {
                refused("end-root-inside", [&]() { (void)cr.endRoot(); });
            }
            break;
        case 5:
            if (pos != FIELD)
            {
                refused("end-compound-elsewhere", [&]() { cr.endCompound(); });
            }
            break;
        default:
            if (pos != ELEMENT)
            {
                refused("end-element-elsewhere", [&]() { cr.endCompoundElement(); });
            }
            break;
        }
    }
    void wrongInArray(const std::string& name, uint64_t k)
    {
        switch (k)
        {
        case 0:
            refused("begin-root-in-array", [&]() { cr.beginRoot(); });
            break;
        case 1:
            refused("end-root-in-array", [&]() { (void)cr.endRoot(); });
            break;
        case 2:
            refused("begin-array-in-array", [&]() { cr.beginArray(str(name)); });
            break;
        case 3:
            refused("begin-compound-in-array", [&]() { cr.beginCompound(str(name)); });
            break;
        case 4:
            refused("set-value-in-array", [&]() { cr.setValue(str(name), 1); });
            refused("set-null-in-array", [&]() { cr.setValue(str(name), nullptr); });
            break;
        case 5:
            refused("field-type-in-array", [&]() { (void)cr.getFieldType(str(name)); });
            break;
        case 6:
            refused("end-compound-in-array", [&]() { cr.endCompound(); });
            break;
        default:
            refused("end-element-in-array", [&]() { cr.endCompoundElement(); });
            break;
        }
    }
    void wrongBeforeRoot()
    {
        const auto name = str("value");
        switch (c.rng.below(11))
        {
        case 0:
            refused("before/end-root", [&]() { (void)cr.endRoot(); });
            break;
        case 1:
            refused("before/begin-array", [&]() { cr.beginArray(name); });
            break;
        case 2:
            refused("before/end-array", [&]() { cr.endArray(); });
            break;
        case 3:
            refused("before/begin-compound", [&]() { cr.beginCompound(name); });
            break;
        case 4:
            refused("before/end-compound", [&]() { cr.endCompound(); });
            break;
        case 5:
            refused("before/set-value", [&]() { cr.setValue(name, 1); });
            break;
        case 6:
            refused("before/set-null", [&]() { cr.setValue(name, nullptr); });
            break;
        case 7:
            refused("before/field-type", [&]() { (void)cr.getFieldType(name); });
            break;
        case 8:
            refused("before/begin-element", [&]() { cr.beginCompoundElement(); });
            break;
        case 9:
            refused("before/end-element", [&]() { cr.endCompoundElement(); });
            break;
        default:
            refused("before/add-value", [&]() { cr.addValueElement(1); });
            refused("before/element-type", [&]() { (void)cr.getElementType(); });
            break;
        }
    }
    // calls with names of no field
    void unknownName(const std::string& some)
    {
        static const char* ends[] = {"x", " ", ".", "[0]", "_"};
        const uint64_t k = c.rng.below(4);
        const std::string n = k == 0 ? std::string("noSuchField") : (k == 1 ? std::string() : (k == 2 ? some + c.rng.pick(ends) : some.substr(0, some.size() - 1) + "\x01"));
        const auto name = str(n);
        refused("unknown/begin-array", [&]() { cr.beginArray(name); });
        refused("unknown/begin-compound", [&]() { cr.beginCompound(name); });
        refused("unknown/set-value", [&]() { cr.setValue(name, std::string_view("x")); });
        refused("unknown/set-null", [&]() { cr.setValue(name, nullptr); });
        refused("unknown/field-type", [&]() { (void)cr.getFieldType(name); });
    }

    template <typename T>
    void position(T& model, Pos pos)
    {
        const uint64_t first = c.rng.below(7);
        for (uint64_t k = 0; k < 7; ++k)
        {
            wrongInCompound(pos, (first + k) % 7);
        }
        visit(model, [&](std::string_view name, auto acc) {
            if (!bad)
            {
                fieldType<typename decltype(acc)::Type>(name);
            }
        });
    }
    template <typename V>
    const TI* typeOf()
    {
        if constexpr (c18::is_vec<V>)
        {
            return &zserio::typeInfo<typename V::value_type, A>();
        }
        else
        {
            return &zserio::typeInfo<V, A>();
        }
    }
    template <typename V>
    void fieldType(std::string_view name)
    {
        const TI* got = nullptr;
        if (!call([&]() { got = &cr.getFieldType(str(name)); }) || got != typeOf<V>())
        {
            fail("field-type", vh::str("type of ", std::string(name), " is not the type of the field at the current position"));
        }
        c.count("field_types");
    }
    template <typename V>
    void elementType(const std::string& name)
    {
        const TI* got = nullptr;
        if (!call([&]() { got = &cr.getElementType(); }) || got != &zserio::typeInfo<V, A>())
        {
            fail("element-type", "type of an element of " + name);
        }
        c.count("element_types");
    }

    // value of exactly the type V, either itself or in an any
    template <typename V, typename F>
    void putOwn(const V& v, F&& f)
    {
        const uint64_t k = c.rng.below(3);
        if constexpr (c18::is_leaf<V>)
        {
            if (k == 1)
            {
                f(v);
                return;
            }
            if (k == 2)
            {
                f(V(v));
                return;
            }
        }
        std::string form;
        f(c18::anyOf<V>(v, c.rng, alloc, form));
    }

    // gives a random value; true when it has to be accepted, out is the value then
    template <typename V, typename F, typename P>
    bool value(V& out, F&& f, P&& where)
    {
        vh::Rng& r = c.rng;
        if (r.chance(30))
        {
            gen(out);
            did("own value");
            c.count("own_values");
            must("own-value-refused", [&]() { putOwn<V>(out, f); }, where);
            return true;
        }
        if (r.chance(5))
        {
            did("wrong any");
            refused("wrong-any", [&]() { f(zserio::BasicAny<A>(c18::Wrong(), alloc)); });
            return false;
        }
        const Arg a = argFor<V>(r);
        did(a.text());
        const bool ok = convert<V>(a, out);
        const bool got = attempt([&]() { put(a, alloc, f); }, where);
        c.count(ok ? "converted" : "not_convertible");
        if (got != ok)
        {
            fail(ok ? "value-refused" : "value-accepted", a.text());
        }
        return ok;
    }

    template <typename T>
    void array(const std::string& name, T& model, int depth)
    {
        using V = typename T::value_type;
        vh::Rng& r = c.rng;
        const auto where = [&]() {
            elementType<V>(name);
            const uint64_t first = r.below(8);
            for (uint64_t k = 0; k < 8; ++k)
            {
                wrongInArray(name, (first + k) % 8);
            }
        };
        for (uint64_t n = r.below(5); n > 0 && !bad; --n)
        {
            switch (r.below(8))
            {
            case 0:
                wrongInArray(name, r.below(8));
                break;
            case 1:
                elementType<V>(name);
                break;
            case 2:
                did("null element");
                refused("null-element", [&]() { cr.addValueElement(nullptr); });
                break;
            default:
                if constexpr (c18::is_leaf<V>)
                {
                    if (r.chance(10))
                    {
                        did("compound element of values");
                        refused("begin-element-of-values", [&]() { cr.beginCompoundElement(); });
                        break;
                    }
                    V v = V();
                    if (value<V>(v, [&](auto&& x) { cr.addValueElement(std::forward<decltype(x)>(x)); }, where))
                    {
                        model.push_back(v);
                        c.count("elements");
                    }
                }
                else
                {
                    if (r.chance(20))
                    {
                        V v = V();
                        if (value<V>(v, [&](auto&& x) { cr.addValueElement(std::forward<decltype(x)>(x)); }, where))
                        {
                            model.push_back(v);
                            c.count("elements");
                        }
                        break;
                    }
                    did("beginCompoundElement");
                    must("begin-element", [&]() { cr.beginCompoundElement(); }, where);
                    model.emplace_back();
                    compound(model.back(), ELEMENT, depth + 1);
                    did("endCompoundElement");
                    must("end-element", [&]() { cr.endCompoundElement(); }, []() {});
                    c.count("compound_elements");
                }
                break;
            }
        }
    }

    template <typename T, typename ACC>
    void field(T& parent, const std::string& name, ACC acc, Pos pos, int depth)
    {
        using V = typename ACC::Type;
        vh::Rng& r = c.rng;
        const auto where = [&]() { position(parent, pos); };
        const uint64_t k = r.below(12);
        if (k == 0)
        {
            fieldType<V>(name);
            return;
        }
        if (k == 1)
        {
            did("null " + name);
            must("null-refused", [&]() { cr.setValue(str(name), nullptr); }, where);
            if (ACC::OPTIONAL)
            {
                acc.reset();
            }
            else
            {
                acc.create(alloc);
            }
            c.count("nulls");
            return;
        }
        if constexpr (c18::is_vec<V>)
        {
            if (k == 2)
            {
                did("compound " + name);
                refused("array-as-compound", [&]() { cr.beginCompound(str(name)); });
                return;
            }
            if (k == 3)
            {
                did("value for array " + name);
                const Arg a = argFor<typename V::value_type>(r);
                refused("array-as-value", [&]() { put(a, alloc, [&](auto&& x) { cr.setValue(str(name), std::forward<decltype(x)>(x)); }); });
                return;
            }
            did("beginArray " + name);
            must("begin-array", [&]() { cr.beginArray(str(name)); }, where);
            acc.create(alloc);
            array(name, acc.get(), depth + 1);
            did("endArray");
            must("end-array", [&]() { cr.endArray(); }, []() {});
            c.count("arrays");
        }
        else
        {
            if (k == 2)
            {
                did("array " + name);
                refused("value-as-array", [&]() { cr.beginArray(str(name)); });
                return;
            }
            if constexpr (!c18::is_leaf<V>)
            {
                if (k > 3)
                {
                    did("beginCompound " + name);
                    must("begin-compound", [&]() { cr.beginCompound(str(name)); }, where);
                    if (ACC::OPTIONAL || c18::IsVar<T>::value)
                    {
                        acc.create(alloc);
                    }
                    compound(acc.get(), FIELD, depth + 1);
                    did("endCompound");
                    must("end-compound", [&]() { cr.endCompound(); }, []() {});
                    c.count("compounds");
                    return;
                }
            }
            else
            {
                if (k == 3)
                {
                    did("compound " + name);
                    refused("value-as-compound", [&]() { cr.beginCompound(str(name)); });
                    return;
                }
            }
            V v = V();
            did("setValue " + name);
            if (value<V>(v, [&](auto&& x) { cr.setValue(str(name), std::forward<decltype(x)>(x)); }, where))
            {
                acc.set(v);
                c.count("values");
            }
        }
    }

    template <typename T>
    void compound(T& model, Pos pos, int depth)
    {
        vh::Rng& r = c.rng;
        size_t fields = 0;
        visit(model, [&](std::string_view, auto) { ++fields; });
        const size_t most = depth == 0 ? (c.thorough ? 24 : 12) : (depth < 4 ? 6 : 1);
        for (size_t n = r.below(most + 1); n > 0 && !bad; --n)
        {
            const uint64_t k = r.below(14);
            if (k == 0)
            {
                wrongInCompound(pos, r.below(7));
                continue;
            }
            const size_t want = r.below(fields);
            size_t i = 0;
            bool done = false;
            visit(model, [&](std::string_view name, auto acc) {
                if (i++ == want && !done)
                {
                    done = true;
                    if (k == 1)
                    {
                        unknownName(std::string(name));
                    }
                    else
                    {
                        field(model, std::string(name), acc, pos, depth);
                    }
                }
            });
        }
    }
};

template <typename A>
std::string digestOf(const c18::E<A>& e)
{
    std::string d;
    e.digest(d);
    return d;
}

template <typename A, typename T, typename G>
void build(vh::Case& c, const A& alloc, G& gen, FailRes* res)
{
    using zserio::ReflectableUtil;
    zserio::BasicZserioTreeCreator<A> cr(zserio::typeInfo<T, A>(), alloc);
    std::vector<std::pair<zserio::IBasicReflectableDataPtr<A>, std::string>> results;
    const uint64_t n = 1 + c.rng.below(3);
    for (uint64_t i = 0; i < n; ++i)
    {
        Run<A, G> run{c, cr, alloc, gen, res, {}};
        if (c.rng.chance(20))
        {
            run.wrongBeforeRoot();
        }
        run.must("begin-root", [&]() { cr.beginRoot(); }, [&]() { run.wrongBeforeRoot(); });
        T model{alloc};
        run.compound(model, ROOT, 0);
        if (run.bad)
        {
            return;
        }
        if (c.rng.chance(5))
        {
            c.count("abandoned");
            break;
        }
        zserio::IBasicReflectableDataPtr<A> p;
        run.must("end-root", [&]() { p = cr.endRoot(); }, []() {});
        if (!p)
        {
            c.fail("no-result", run.log);
            return;
        }
        const std::string want = digestOf(c18::expect<A>(model));
        const std::string got = digestOf(c18::expect<A>(ReflectableUtil::getValue<T, A>(p)));
        c.eval();
        c.distinct(vh::hashStr(want));
        if (got != want)
        {
            size_t at = 0;
            while (at < got.size() && at < want.size() && got[at] == want[at])
            {
                ++at;
            }
            c.fail("result", vh::str("got ", got.substr(at > 40 ? at - 40 : 0, 90), " expected ", want.substr(at > 40 ? at - 40 : 0, 90), " after ", run.log));
            return;
        }
        if (c.rng.chance(20))
        {
            run.wrongBeforeRoot();
        }
        results.emplace_back(p, want);
        c.count("results");
    }
    // finished objects do not depend on what the creator did later
    for (const auto& [p, want] : results)
    {
        c.check(digestOf(c18::expect<A>(ReflectableUtil::getValue<T, A>(p))) == want, "result-changed-later", want.substr(0, 200));
    }
}

} // namespace c21
