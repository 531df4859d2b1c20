// C29: extended fields - the wrapper against a model and structures with extended fields across schema versions
#pragma once
#include <set>
#include <unordered_set>

#include "life.h"
#include "vh.h"
#include "zserio/ArrayView.h"
#include "zserio/BitBuffer.h"
#include "zserio/Bytes.h"
#include "zserio/DataView.h"
#include "zserio/Enums.h"
#include "zserio/Extended.h"
#include "zserio/ExtendedFieldException.h"
#include "zserio/GenericAccessor.h"
#include "zserio/Optional.h"
#include "zserio/SerializeUtil.h"
#include "zserio/String.h"
#include "zserio/Types.h"
#include "zserio/Vector.h"
#include "zserio/View.h"

namespace c29
{

template <typename A>
using Str = zserio::BasicString<zserio::RebindAlloc<A, char>>;
template <typename A, typename T>
using Vec = zserio::Vector<T, zserio::RebindAlloc<A, T>>;

// independent encoding: text of bits
struct Bits
{
    std::string s;
    void put(uint64_t v, unsigned n)
    {
        for (unsigned i = n; i > 0; --i)
        {
            s += ((v >> (i - 1)) & 1U) != 0 ? '1' : '0';
        }
    }
    void size(uint32_t n)
    {
        // varsize, only short ones are generated here
        if (n < 128)
        {
            put(n, 8);
        }
        else
        {
            put(0x80U | (n >> 7U), 8);
            put(n & 0x7fU, 8);
        }
    }
    void bytes(const char* p, size_t n)
    {
        size(static_cast<uint32_t>(n));
        for (size_t i = 0; i < n; ++i)
        {
            put(static_cast<uint8_t>(p[i]), 8);
        }
    }
    void align(size_t n)
    {
        while (s.size() % n != 0)
        {
            s += '0';
        }
    }
};

// structure used as a field
template <typename A>
struct Part
{
    using allocator_type = A;
    Part() noexcept :
            Part(allocator_type{})
    {}
    explicit Part(const allocator_type& a) noexcept :
            name(a)
    {}
    Part(zserio::UInt8 n_, Str<A> name_) :
            n(n_),
            name(std::move(name_))
    {}
    Part(const Part&) = default;
    Part(Part&&) = default;
    Part& operator=(const Part&) = default;
    Part& operator=(Part&&) = default;
    ~Part() = default;
    Part(const Part& o, const allocator_type& a) :
            n(o.n),
            name(o.name, a)
    {}
    Part(Part&& o, const allocator_type& a) :
            n(o.n),
            name(std::move(o.name), a)
    {}
    zserio::UInt8 n{};
    Str<A> name;
};
template <typename A>
bool operator==(const Part<A>& a, const Part<A>& b)
{
    return a.n == b.n && a.name == b.name;
}
template <typename A>
bool operator!=(const Part<A>& a, const Part<A>& b)
{
    return !(a == b);
}
template <typename A>
bool operator<(const Part<A>& a, const Part<A>& b)
{
    return a.n != b.n ? a.n < b.n : a.name < b.name;
}
template <typename A>
bool operator>(const Part<A>& a, const Part<A>& b)
{
    return b < a;
}
template <typename A>
bool operator<=(const Part<A>& a, const Part<A>& b)
{
    return !(b < a);
}
template <typename A>
bool operator>=(const Part<A>& a, const Part<A>& b)
{
    return !(a < b);
}
template <typename A>
uint32_t calcHashCode(uint32_t seed, const Part<A>& p)
{
    return zserio::calcHashCode(zserio::calcHashCode(seed, p.n), p.name);
}

constexpr int FIELDS = 8; // extended fields
// structure of schema version VER: has the first VER extended fields
template <typename A, int VER>
struct Obj
{
    using allocator_type = A;
    using OptStr = zserio::BasicOptional<A, Str<A>>;
    using OptInt = zserio::BasicOptional<A, zserio::VarInt32>;

    Obj() noexcept :
            Obj(allocator_type{})
    {}
    explicit Obj(const allocator_type& a) noexcept :
            name(a),
            e1(a),
            e2(a),
            e3(a),
            e4(a),
            e5(a),
            e7(a)
    {}
    Obj(const Obj&) = default;
    Obj(Obj&&) = default;
    Obj& operator=(const Obj&) = default;
    Obj& operator=(Obj&&) = default;
    ~Obj() = default;
    Obj(const Obj& o, const allocator_type& a) :
            base(o.base),
            name(o.name, a),
            e0(o.e0),
            e1(o.e1, a),
            e2(o.e2, a),
            e3(o.e3, a),
            e4(o.e4, a),
            e5(o.e5, a),
            e6(o.e6),
            e7(o.e7, a)
    {}
    Obj(Obj&& o, const allocator_type& a) :
            base(o.base),
            name(std::move(o.name), a),
            e0(std::move(o.e0)),
            e1(std::move(o.e1), a),
            e2(std::move(o.e2), a),
            e3(std::move(o.e3), a),
            e4(std::move(o.e4), a),
            e5(std::move(o.e5), a),
            e6(std::move(o.e6)),
            e7(std::move(o.e7), a)
    {}
    template <typename F>
    static void each(F&& f)
    {
        f(0, &Obj::e0);
        f(1, &Obj::e1);
        f(2, &Obj::e2);
        f(3, &Obj::e3);
        f(4, &Obj::e4);
        f(5, &Obj::e5);
        f(6, &Obj::e6);
        f(7, &Obj::e7);
    }

    zserio::UInt<5> base{};
    Str<A> name;
    zserio::Extended<zserio::UInt<13>> e0{};
    zserio::Extended<OptStr> e1;
    zserio::Extended<Vec<A, zserio::Int16>> e2;
    zserio::Extended<Part<A>> e3;
    zserio::Extended<zserio::BasicBitBuffer<A>> e4;
    zserio::Extended<OptInt> e5;
    zserio::Extended<zserio::Bool> e6{};
    zserio::Extended<zserio::BasicBytes<A>> e7;
};
template <typename A, int VER>
bool operator==(const Obj<A, VER>& a, const Obj<A, VER>& b)
{
    return a.base == b.base && a.name == b.name && a.e0 == b.e0 && a.e1 == b.e1 && a.e2 == b.e2 && a.e3 == b.e3 && a.e4 == b.e4 &&
            a.e5 == b.e5 && a.e6 == b.e6 && a.e7 == b.e7;
}
template <typename A, int VER>
bool operator!=(const Obj<A, VER>& a, const Obj<A, VER>& b)
{
    return !(a == b);
}

} // namespace c29

namespace zserio
{

template <typename A>
class View<c29::Part<A>>
{
public:
    explicit View(const c29::Part<A>& d) noexcept :
            m_data(&d)
    {}
    UInt8 n() const
    {
        return m_data->n;
    }
    std::string_view name() const
    {
        return m_data->name;
    }

private:
    const c29::Part<A>* m_data;
};
template <typename A>
bool operator==(const View<c29::Part<A>>& a, const View<c29::Part<A>>& b)
{
    return a.n() == b.n() && a.name() == b.name();
}
template <typename A>
bool operator!=(const View<c29::Part<A>>& a, const View<c29::Part<A>>& b)
{
    return !(a == b);
}
template <typename A>
bool operator<(const View<c29::Part<A>>& a, const View<c29::Part<A>>& b)
{
    return a.n() != b.n() ? a.n() < b.n() : a.name() < b.name();
}
template <typename A>
bool operator>(const View<c29::Part<A>>& a, const View<c29::Part<A>>& b)
{
    return b < a;
}
template <typename A>
bool operator<=(const View<c29::Part<A>>& a, const View<c29::Part<A>>& b)
{
    return !(b < a);
}
template <typename A>
bool operator>=(const View<c29::Part<A>>& a, const View<c29::Part<A>>& b)
{
    return !(a < b);
}

template <typename A, int VER>
class View<c29::Obj<A, VER>>
{
    using O = c29::Obj<A, VER>;

public:
    explicit View(const O& d) noexcept :
            m_data(&d)
    {}
    const O& zserioData() const
    {
        return *m_data;
    }
    UInt<5> base() const
    {
        return m_data->base;
    }
    std::string_view name() const
    {
        return m_data->name;
    }
    Extended<UInt<13>> e0() const
    {
        return plain<Extended<UInt<13>>>(m_data->e0);
    }
    Extended<BasicOptional<A, std::string_view>> e1() const
    {
        return optional<Extended<BasicOptional<A, std::string_view>>>(m_data->e1);
    }
    Extended<ArrayView<const Int16>> e2() const
    {
        return plain<Extended<ArrayView<const Int16>>>(m_data->e2);
    }
    Extended<View<c29::Part<A>>> e3() const
    {
        return plain<Extended<View<c29::Part<A>>>>(m_data->e3);
    }
    Extended<BasicBitBufferView<A>> e4() const
    {
        return plain<Extended<BasicBitBufferView<A>>>(m_data->e4);
    }
    Extended<BasicOptional<A, VarInt32>> e5() const
    {
        return optional<Extended<BasicOptional<A, VarInt32>>>(m_data->e5);
    }
    Extended<Bool> e6() const
    {
        return plain<Extended<Bool>>(m_data->e6);
    }
    Extended<BytesView> e7() const
    {
        return plain<Extended<BytesView>>(m_data->e7);
    }

private:
    // as in the generated getters
    template <typename V, typename T>
    static V plain(const Extended<T>& e)
    {
        if (e.isPresent())
        {
            return V(*e);
        }
        auto v = V(*e);
        v.setPresent(false);
        return v;
    }
    template <typename V, typename T>
    static V optional(const Extended<T>& e)
    {
        if (e.isPresent())
        {
            if (e->has_value())
            {
                return V(std::in_place, e->get_allocator(), **e);
            }
            return V(std::nullopt, e->get_allocator());
        }
        auto v = V(std::nullopt, e->get_allocator());
        v.setPresent(false);
        return v;
    }
    const O* m_data;
};

namespace detail
{

template <typename A>
struct ObjectTraits<c29::Part<A>>
{
    using V = View<c29::Part<A>>;
    static void validate(const V& v, std::string_view)
    {
        detail::validate(v.n(), "n");
        detail::validate(v.name(), "name");
    }
    static BitSize bitSizeOf(const V& v, BitSize pos)
    {
        BitSize e = pos;
        e += detail::bitSizeOf(v.n(), e);
        e += detail::bitSizeOf(v.name(), e);
        return e - pos;
    }
    static void write(BitStreamWriter& w, const V& v)
    {
        detail::write(w, v.n());
        detail::write(w, v.name());
    }
    static V read(BitStreamReader& r, c29::Part<A>& d)
    {
        detail::read(r, d.n);
        detail::read(r, d.name);
        return V(d);
    }
};

template <typename A, int VER>
struct ObjectTraits<c29::Obj<A, VER>>
{
    using O = c29::Obj<A, VER>;
    using V = View<O>;
    // calls f(i, view of the field)
    template <typename F>
    static void each(const V& v, F&& f)
    {
        f(0, v.e0());
        f(1, v.e1());
        f(2, v.e2());
        f(3, v.e3());
        f(4, v.e4());
        f(5, v.e5());
        f(6, v.e6());
        f(7, v.e7());
    }
    template <typename T>
    static constexpr bool isArray = false;
    template <typename T>
    static constexpr bool isArray<ArrayView<T>> = true;
    template <typename T, typename AL>
    static constexpr bool isArray<std::vector<T, AL>> = !std::is_same_v<T, uint8_t>;
    template <typename T>
    static constexpr bool isOpt = false;
    template <typename AL, typename T>
    static constexpr bool isOpt<BasicOptional<AL, T>> = true;

    static void validate(const V& v, std::string_view)
    {
        detail::validate(v.base(), "base");
        detail::validate(v.name(), "name");
        int seen = 0;
        each(v, [&](int i, const auto& e) {
            using T = std::decay_t<decltype(*e)>;
            if (i >= VER || !e.isPresent())
            {
                return;
            }
            if (seen++ != i)
            {
                throw ExtendedFieldException("Some of preceding extended fields is not present before 'Obj.e") << i << "'!";
            }
            if constexpr (isOpt<T>)
            {
                if (e->has_value())
                {
                    detail::validate(**e, "e");
                }
            }
            else if constexpr (isArray<T>)
            {
                detail::validate<ArrayType::AUTO>(*e, "e");
            }
            else
            {
                detail::validate(*e, "e");
            }
        });
    }
    static BitSize bitSizeOf(const V& v, BitSize pos)
    {
        BitSize end = pos;
        end += detail::bitSizeOf(v.base(), end);
        end += detail::bitSizeOf(v.name(), end);
        each(v, [&](int i, const auto& e) {
            using T = std::decay_t<decltype(*e)>;
            if (i >= VER || !e.isPresent())
            {
                return;
            }
            end = ::zserio::alignTo(8, end);
            if constexpr (isOpt<T>)
            {
                end += detail::bitSizeOf(Bool());
                if (e->has_value())
                {
                    end += detail::bitSizeOf(**e, end);
                }
            }
            else if constexpr (isArray<T>)
            {
                end += detail::bitSizeOf<ArrayType::AUTO>(*e, end);
            }
            else
            {
                end += detail::bitSizeOf(*e, end);
            }
        });
        return end - pos;
    }
    static void write(BitStreamWriter& w, const V& v)
    {
        detail::write(w, v.base());
        detail::write(w, v.name());
        each(v, [&](int i, const auto& e) {
            using T = std::decay_t<decltype(*e)>;
            if (i >= VER || !e.isPresent())
            {
                return;
            }
            w.alignTo(8);
            if constexpr (isOpt<T>)
            {
                w.writeBool(e->has_value());
                if (e->has_value())
                {
                    detail::write(w, **e);
                }
            }
            else if constexpr (isArray<T>)
            {
                detail::write<ArrayType::AUTO>(w, *e);
            }
            else
            {
                detail::write(w, *e);
            }
        });
    }
    static V read(BitStreamReader& r, O& d)
    {
        detail::read(r, d.base);
        detail::read(r, d.name);
        O::each([&](int i, auto m) {
            auto& e = d.*m;
            using T = std::decay_t<decltype(*e)>;
            if (i >= VER)
            {
                e.setPresent(false);
                return;
            }
            if (::zserio::alignTo(8U, static_cast<::zserio::BitSize>(r.getBitPosition())) < r.getBufferBitSize())
            {
                r.alignTo(8);
                if constexpr (isOpt<T>)
                {
                    if (r.readBool())
                    {
                        e->emplace();
                        detail::read(r, **e);
                    }
                    else
                    {
                        e->reset();
                    }
                }
                else if constexpr (isArray<T>)
                {
                    detail::read<ArrayType::AUTO>(r, *e);
                }
                else
                {
                    (void)detail::read(r, *e);
                }
            }
            else
            {
                e.setPresent(false);
            }
        });
        return V(d);
    }
};

} // namespace detail

} // namespace zserio
