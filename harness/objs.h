// Hand-written objects in the style of generated code: nested packing contexts, alignment, offsets, optionals.
#pragma once
#include "zserio/ArrayView.h"
#include "zserio/BitBuffer.h"
#include "zserio/Bytes.h"
#include "zserio/Enums.h"
#include "zserio/GenericAccessor.h"
#include "zserio/Optional.h"
#include "zserio/String.h"
#include "zserio/Types.h"
#include "zserio/Vector.h"
#include "zserio/View.h"

namespace objs
{

struct Inner
{
    zserio::UInt32 x{};
    zserio::VarUInt y{};
    zserio::Bytes z;
};

struct PObj
{
    zserio::UInt8 a{};
    zserio::VarInt64 b{};
    Inner in;
    zserio::Vector<zserio::Int16> arr;
    zserio::String s;
    zserio::Bool flag{};
};

// unpackable object with alignment and optional; padding depends on the absolute bit position
struct AObj
{
    zserio::UInt<3> x{};
    zserio::UInt16 y{}; // align(16)
    zserio::Optional<zserio::Bool> o;
};

// offset field pointing to a byte aligned field
struct OObj
{
    using allocator_type = std::allocator<uint8_t>;
    OObj() = default;
    explicit OObj(const allocator_type& allocator) :
            data(allocator)
    {}

    zserio::UInt5 lead{};
    mutable zserio::UInt32 off{};
    zserio::Bytes data; // off: data
    zserio::UInt7 tail{};
};

inline bool operator==(const Inner& a, const Inner& b)
{
    return a.x == b.x && a.y == b.y && a.z == b.z;
}
inline bool operator==(const PObj& a, const PObj& b)
{
    return a.a == b.a && a.b == b.b && a.in == b.in && a.arr == b.arr && a.s == b.s && a.flag == b.flag;
}
inline bool operator==(const AObj& a, const AObj& b)
{
    return a.x == b.x && a.y == b.y && a.o.has_value() == b.o.has_value() && (!a.o.has_value() || *a.o == *b.o);
}
inline bool operator==(const OObj& a, const OObj& b)
{
    return a.lead == b.lead && a.data == b.data && a.tail == b.tail;
}
#define OBJS_REST(T, LESS) \
    inline bool operator!=(const T& a, const T& b) \
    { \
        return !(a == b); \
    } \
    inline bool operator<(const T& a, const T& b) \
    { \
        return LESS; \
    } \
    inline bool operator>(const T& a, const T& b) \
    { \
        return b < a; \
    } \
    inline bool operator<=(const T& a, const T& b) \
    { \
        return !(b < a); \
    } \
    inline bool operator>=(const T& a, const T& b) \
    { \
        return !(a < b); \
    }
OBJS_REST(Inner, a.x != b.x ? a.x < b.x : (a.y != b.y ? a.y < b.y : a.z < b.z))
OBJS_REST(PObj, a.a != b.a ? a.a < b.a : a.b < b.b)
OBJS_REST(AObj, a.x != b.x ? a.x < b.x : a.y < b.y)
OBJS_REST(OObj, a.lead != b.lead ? a.lead < b.lead : a.tail < b.tail)

} // namespace objs

namespace zserio
{

#define OBJS_VIEW_HEAD(T) \
public: \
    explicit View(const T& data) noexcept : \
            m_data(&data) \
    {} \
    const T& zserioData() const \
    { \
        return *m_data; \
    } \
\
private: \
    const T* m_data; \
\
public:

template <>
class View<objs::Inner>
{
    OBJS_VIEW_HEAD(objs::Inner)
    UInt32 x() const
    {
        return m_data->x;
    }
    VarUInt y() const
    {
        return m_data->y;
    }
    BytesView z() const
    {
        return m_data->z;
    }
};

template <>
class View<objs::PObj>
{
    OBJS_VIEW_HEAD(objs::PObj)
    UInt8 a() const
    {
        return m_data->a;
    }
    VarInt64 b() const
    {
        return m_data->b;
    }
    View<objs::Inner> in() const
    {
        return View<objs::Inner>(m_data->in);
    }
    ArrayView<const Int16> arr() const
    {
        return ArrayView<const Int16>(m_data->arr);
    }
    std::string_view s() const
    {
        return m_data->s;
    }
    Bool flag() const
    {
        return m_data->flag;
    }
};

template <>
class View<objs::AObj>
{
    OBJS_VIEW_HEAD(objs::AObj)
    UInt<3> x() const
    {
        return m_data->x;
    }
    UInt16 y() const
    {
        return m_data->y;
    }
    Optional<Bool> o() const
    {
        return m_data->o;
    }
};

template <>
class View<objs::OObj>
{
    OBJS_VIEW_HEAD(objs::OObj)
    View(const objs::OObj& data, const View&) noexcept : // the copy of a data view
            m_data(&data)
    {}
    UInt5 lead() const
    {
        return m_data->lead;
    }
    offset_field_reference_t<UInt32> off() const
    {
        return m_data->off;
    }
    BytesView data() const
    {
        return m_data->data;
    }
    UInt7 tail() const
    {
        return m_data->tail;
    }
};

#define OBJS_CMP(T) \
    inline bool operator==(const View<T>& a, const View<T>& b) \
    { \
        return a.zserioData() == b.zserioData(); \
    } \
    inline bool operator!=(const View<T>& a, const View<T>& b) \
    { \
        return !(a == b); \
    } \
    inline bool operator<(const View<T>& a, const View<T>& b) \
    { \
        return a.zserioData() < b.zserioData(); \
    } \
    inline bool operator>(const View<T>& a, const View<T>& b) \
    { \
        return b < a; \
    } \
    inline bool operator<=(const View<T>& a, const View<T>& b) \
    { \
        return !(b < a); \
    } \
    inline bool operator>=(const View<T>& a, const View<T>& b) \
    { \
        return !(a < b); \
    }
OBJS_CMP(objs::Inner)
OBJS_CMP(objs::PObj)
OBJS_CMP(objs::AObj)
OBJS_CMP(objs::OObj)

namespace detail
{

template <>
struct ObjectTraits<objs::Inner>
{
    struct PackingContext
    {
        DeltaContext x;
        DeltaContext y;
    };

    static void validate(const View<objs::Inner>& v, std::string_view)
    {
        detail::validate(v.x(), "x");
        detail::validate(v.y(), "y");
        detail::validate(v.z(), "z");
    }
    static BitSize bitSizeOf(const View<objs::Inner>& v, BitSize pos)
    {
        BitSize e = pos;
        e += detail::bitSizeOf(v.x(), e);
        e += detail::bitSizeOf(v.y(), e);
        e += detail::bitSizeOf(v.z(), e);
        return e - pos;
    }
    static void write(BitStreamWriter& w, const View<objs::Inner>& v)
    {
        detail::write(w, v.x());
        detail::write(w, v.y());
        detail::write(w, v.z());
    }
    static View<objs::Inner> read(BitStreamReader& r, objs::Inner& d)
    {
        detail::read(r, d.x);
        detail::read(r, d.y);
        detail::read(r, d.z);
        return View<objs::Inner>(d);
    }
    static void initContext(PackingContext& c, const View<objs::Inner>& v)
    {
        detail::initContext(c.x, v.x());
        detail::initContext(c.y, v.y());
    }
    static BitSize bitSizeOf(PackingContext& c, const View<objs::Inner>& v, BitSize pos)
    {
        BitSize e = pos;
        e += detail::bitSizeOf(c.x, v.x(), e);
        e += detail::bitSizeOf(c.y, v.y(), e);
        e += detail::bitSizeOf(v.z(), e);
        return e - pos;
    }
    static void write(PackingContext& c, BitStreamWriter& w, const View<objs::Inner>& v)
    {
        detail::write(c.x, w, v.x());
        detail::write(c.y, w, v.y());
        detail::write(w, v.z());
    }
    static void read(PackingContext& c, BitStreamReader& r, objs::Inner& d)
    {
        detail::read(c.x, r, d.x);
        detail::read(c.y, r, d.y);
        detail::read(r, d.z);
    }
};

template <>
struct ObjectTraits<objs::PObj>
{
    struct PackingContext
    {
        DeltaContext a;
        DeltaContext b;
        ObjectTraits<objs::Inner>::PackingContext in;
        DeltaContext flag;
    };

    static void validate(const View<objs::PObj>& v, std::string_view)
    {
        detail::validate(v.a(), "a");
        detail::validate(v.b(), "b");
        detail::validate(v.in(), "in");
        detail::validate<ArrayType::AUTO>(v.arr(), "arr");
        detail::validate(v.s(), "s");
        detail::validate(v.flag(), "flag");
    }
    static BitSize bitSizeOf(const View<objs::PObj>& v, BitSize pos)
    {
        BitSize e = pos;
        e += detail::bitSizeOf(v.a(), e);
        e += detail::bitSizeOf(v.b(), e);
        e += detail::bitSizeOf(v.in(), e);
        e += detail::bitSizeOfPacked<ArrayType::AUTO>(v.arr(), e);
        e += detail::bitSizeOf(v.s(), e);
        e += detail::bitSizeOf(v.flag(), e);
        return e - pos;
    }
    static void write(BitStreamWriter& w, const View<objs::PObj>& v)
    {
        detail::write(w, v.a());
        detail::write(w, v.b());
        detail::write(w, v.in());
        detail::writePacked<ArrayType::AUTO>(w, v.arr());
        detail::write(w, v.s());
        detail::write(w, v.flag());
    }
    static View<objs::PObj> read(BitStreamReader& r, objs::PObj& d)
    {
        detail::read(r, d.a);
        detail::read(r, d.b);
        (void)detail::read(r, d.in);
        detail::readPacked<ArrayType::AUTO>(r, d.arr);
        detail::read(r, d.s);
        detail::read(r, d.flag);
        return View<objs::PObj>(d);
    }
    static void initContext(PackingContext& c, const View<objs::PObj>& v)
    {
        detail::initContext(c.a, v.a());
        detail::initContext(c.b, v.b());
        detail::initContext(c.in, v.in());
        detail::initContext(c.flag, v.flag());
    }
    static BitSize bitSizeOf(PackingContext& c, const View<objs::PObj>& v, BitSize pos)
    {
        BitSize e = pos;
        e += detail::bitSizeOf(c.a, v.a(), e);
        e += detail::bitSizeOf(c.b, v.b(), e);
        e += detail::bitSizeOf(c.in, v.in(), e);
        e += detail::bitSizeOfPacked<ArrayType::AUTO>(v.arr(), e);
        e += detail::bitSizeOf(v.s(), e);
        e += detail::bitSizeOf(c.flag, v.flag(), e);
        return e - pos;
    }
    static void write(PackingContext& c, BitStreamWriter& w, const View<objs::PObj>& v)
    {
        detail::write(c.a, w, v.a());
        detail::write(c.b, w, v.b());
        detail::write(c.in, w, v.in());
        detail::writePacked<ArrayType::AUTO>(w, v.arr());
        detail::write(w, v.s());
        detail::write(c.flag, w, v.flag());
    }
    static void read(PackingContext& c, BitStreamReader& r, objs::PObj& d)
    {
        detail::read(c.a, r, d.a);
        detail::read(c.b, r, d.b);
        detail::read(c.in, r, d.in);
        detail::readPacked<ArrayType::AUTO>(r, d.arr);
        detail::read(r, d.s);
        detail::read(c.flag, r, d.flag);
    }
};

template <>
struct ObjectTraits<objs::AObj>
{
    static void validate(const View<objs::AObj>& v, std::string_view)
    {
        detail::validate(v.x(), "x");
        detail::validate(v.y(), "y");
    }
    static BitSize bitSizeOf(const View<objs::AObj>& v, BitSize pos)
    {
        BitSize e = pos;
        e += detail::bitSizeOf(v.x(), e);
        e = alignTo(16, e);
        e += detail::bitSizeOf(v.y(), e);
        e += detail::bitSizeOf(Bool());
        if (v.o().has_value())
        {
            e += detail::bitSizeOf(*v.o(), e);
        }
        return e - pos;
    }
    static void write(BitStreamWriter& w, const View<objs::AObj>& v)
    {
        detail::write(w, v.x());
        w.alignTo(16);
        detail::write(w, v.y());
        if (v.o().has_value())
        {
            w.writeBool(true);
            detail::write(w, *v.o());
        }
        else
        {
            w.writeBool(false);
        }
    }
    static View<objs::AObj> read(BitStreamReader& r, objs::AObj& d)
    {
        detail::read(r, d.x);
        r.alignTo(16);
        detail::read(r, d.y);
        if (r.readBool())
        {
            d.o.emplace();
            detail::read(r, *d.o);
        }
        else
        {
            d.o.reset();
        }
        return View<objs::AObj>(d);
    }
};

template <>
struct ObjectTraits<objs::OObj>
{
    struct PackingContext
    {
        DeltaContext lead;
        DeltaContext tail;
    };

    static void validate(const View<objs::OObj>& v, std::string_view)
    {
        detail::validate(v.lead(), "lead");
        detail::validate(v.tail(), "tail");
    }
    static BitSize bitSizeOf(const View<objs::OObj>& v, BitSize pos)
    {
        BitSize e = pos;
        e += detail::bitSizeOf(v.lead(), e);
        e += detail::bitSizeOf(v.off(), e);
        e = alignTo(8, e);
        e += detail::bitSizeOf(v.data(), e);
        e += detail::bitSizeOf(v.tail(), e);
        return e - pos;
    }
    static BitSize initializeOffsets(const View<objs::OObj>& v, BitSize pos)
    {
        BitSize e = pos;
        e += detail::bitSizeOf(v.lead(), e);
        e += detail::bitSizeOf(v.off(), e);
        e = alignTo(8, e);
        detail::setGenericOffset(v.off(), e / 8);
        e += detail::initializeOffsets(v.data(), e);
        e += detail::bitSizeOf(v.tail(), e);
        return e - pos;
    }
    static void write(BitStreamWriter& w, const View<objs::OObj>& v)
    {
        detail::write(w, v.lead());
        detail::write(w, v.off());
        w.alignTo(8);
        detail::write(w, v.data());
        detail::write(w, v.tail());
    }
    static View<objs::OObj> read(BitStreamReader& r, objs::OObj& d)
    {
        detail::read(r, d.lead);
        detail::read(r, d.off);
        r.alignTo(8);
        detail::read(r, d.data);
        detail::read(r, d.tail);
        return View<objs::OObj>(d);
    }
    static void initContext(PackingContext& c, const View<objs::OObj>& v)
    {
        detail::initContext(c.lead, v.lead());
        detail::initContext(c.tail, v.tail());
    }
    static BitSize bitSizeOf(PackingContext& c, const View<objs::OObj>& v, BitSize pos)
    {
        BitSize e = pos;
        e += detail::bitSizeOf(c.lead, v.lead(), e);
        e += detail::bitSizeOf(v.off(), e);
        e = alignTo(8, e);
        e += detail::bitSizeOf(v.data(), e);
        e += detail::bitSizeOf(c.tail, v.tail(), e);
        return e - pos;
    }
    static BitSize initializeOffsets(PackingContext& c, const View<objs::OObj>& v, BitSize pos)
    {
        BitSize e = pos;
        e += detail::bitSizeOf(c.lead, v.lead(), e);
        e += detail::bitSizeOf(v.off(), e);
        e = alignTo(8, e);
        detail::setGenericOffset(v.off(), e / 8);
        e += detail::bitSizeOf(v.data(), e);
        e += detail::bitSizeOf(c.tail, v.tail(), e);
        return e - pos;
    }
    static void write(PackingContext& c, BitStreamWriter& w, const View<objs::OObj>& v)
    {
        detail::write(c.lead, w, v.lead());
        detail::write(w, v.off());
        w.alignTo(8);
        detail::write(w, v.data());
        detail::write(c.tail, w, v.tail());
    }
    static void read(PackingContext& c, BitStreamReader& r, objs::OObj& d)
    {
        detail::read(c.lead, r, d.lead);
        detail::read(r, d.off);
        r.alignTo(8);
        detail::read(r, d.data);
        detail::read(c.tail, r, d.tail);
    }
};

} // namespace detail

} // namespace zserio
