// Random primitive operations on the bit streams with their reference encoding.
#pragma once
#include <string>
#include <vector>

#include "ref.h"
#include "zserio/BitBuffer.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/CppRuntimeException.h"

namespace ops
{

using ref::Bits;
using ref::i128;
using ref::Var;

enum Kind
{
    U32,
    U64,
    S32,
    S64,
    BOOL,
    VAR, // sub = Var
    F16,
    F32,
    F64,
    BYTES,
    STRING,
    BITBUF,
    KIND_COUNT,
    ALIGN = 50,
};

struct Op
{
    int kind = 0;
    Var var = Var::I;
    unsigned width = 0; // bits or alignment
    i128 value = 0;
    double d = 0;
    std::string blob;
    size_t bitSize = 0; // of bit buffer

    std::string text() const
    {
        static const char* n[] = {"u32", "u64", "s32", "s64", "bool", "var", "f16", "f32", "f64", "bytes", "string",
                "bitbuf"};
        if (kind == ALIGN)
        {
            return vh::str("align ", width);
        }
        std::string s = kind == VAR ? ref::varName(var) : n[kind];
        if (kind <= S64)
        {
            s += vh::str(":", width);
        }
        if (kind <= VAR)
        {
            const bool neg = value < 0;
            const uint64_t a = static_cast<uint64_t>(neg ? -value : value);
            s += vh::str("=", neg ? "-" : "", a);
        }
        else if (kind <= F64)
        {
            s += vh::str("=", d, "/", ref::f64bits(d));
        }
        else
        {
            s += vh::str(" len=", kind == BITBUF ? bitSize : blob.size(), " ", vh::hex(blob.data(), blob.size(), 12));
        }
        return s;
    }
};

inline i128 randomVar(vh::Rng& r, Var k)
{
    const unsigned cap = ref::varCapacity(k, ref::varMaxBytes(k));
    for (;;)
    {
        i128 v = 0;
        if (r.chance(40))
        {
            // around a length boundary
            const unsigned n = 1 + static_cast<unsigned>(r.below(ref::varMaxBytes(k)));
            v = (i128(1) << ref::varCapacity(k, n)) + static_cast<i128>(r.range(-2, 2));
        }
        else
        {
            v = static_cast<i128>(r.ubits(cap > 64 ? 64 : cap));
        }
        if (ref::varSigned(k) && r.flip())
        {
            v = -v;
        }
        if (k == Var::I && r.chance(3))
        {
            v = -(i128(1) << 63);
        }
        if (ref::varFits(k, v))
        {
            return v;
        }
    }
}

inline float randomF32(vh::Rng& r)
{
    switch (r.below(6))
    {
    case 0:
    {
        static const float sp[] = {0.0f, -0.0f, 1.0f, -1.0f, INFINITY, -INFINITY, NAN, 1e-45f, 1.17549435e-38f,
                3.4028235e38f, 65504.0f, 65519.9f, 65520.0f, 65536.0f, 6e-8f, 5.96e-8f, 2.98e-8f, 0.5f, 0.1f};
        return sp[r.below(sizeof sp / sizeof *sp)];
    }
    case 1: // half-range exponents
        return ref::bitsF32((static_cast<uint32_t>(r.below(2)) << 31) |
                (static_cast<uint32_t>(127 - 27 + r.below(46)) << 23) | (static_cast<uint32_t>(r.ubits(23))));
    default:
        return ref::bitsF32(static_cast<uint32_t>(r.ubits(32)));
    }
}

inline std::string randomBlob(vh::Rng& r, size_t maxLen)
{
    size_t n = r.chance(70) ? r.below(20) : r.below(maxLen + 1);
    if (r.chance(10))
    {
        n = 126 + r.below(4);
    }
    return r.bytes(n);
}

inline Op randomOp(vh::Rng& r, bool withAlign, size_t maxBlob = 300)
{
    Op o;
    if (withAlign && r.chance(8))
    {
        static const unsigned al[] = {1, 2, 3, 4, 5, 7, 8, 13, 16, 24, 32, 33, 48, 63, 64};
        o.kind = ALIGN;
        o.width = al[r.below(sizeof al / sizeof *al)];
        return o;
    }
    o.kind = r.chance(50) ? static_cast<int>(r.below(6)) : static_cast<int>(r.below(KIND_COUNT));
    switch (o.kind)
    {
    case U32:
        o.width = 1 + static_cast<unsigned>(r.below(32));
        o.value = static_cast<i128>(r.ubits(o.width));
        break;
    case U64:
        o.width = 1 + static_cast<unsigned>(r.below(64));
        o.value = static_cast<i128>(r.ubits(o.width));
        break;
    case S32:
        o.width = 1 + static_cast<unsigned>(r.below(32));
        o.value = static_cast<i128>(r.sbits(o.width));
        break;
    case S64:
        o.width = 1 + static_cast<unsigned>(r.below(64));
        o.value = static_cast<i128>(r.sbits(o.width));
        break;
    case BOOL:
        o.value = static_cast<i128>(r.below(2));
        break;
    case VAR:
        o.var = static_cast<Var>(r.below(9));
        o.value = randomVar(r, o.var);
        break;
    case F16:
        if (r.chance(70))
        {
            o.d = ref::halfValue(static_cast<uint16_t>(r.ubits(16)));
        }
        else
        {
            o.d = randomF32(r);
        }
        break;
    case F32:
        o.d = randomF32(r);
        break;
    case F64:
        o.d = ref::bitsF64(r.ubits(64));
        break;
    case BYTES:
    case STRING:
        o.blob = randomBlob(r, maxBlob);
        break;
    case BITBUF:
        o.blob = randomBlob(r, maxBlob);
        o.bitSize = o.blob.size() * 8;
        if (o.bitSize != 0)
        {
            o.bitSize -= r.below(8);
        }
        break;
    default:
        break;
    }
    return o;
}

inline zserio::BitBuffer toBitBuffer(const Op& o)
{
    zserio::Vector<uint8_t> v(o.blob.begin(), o.blob.end());
    return zserio::BitBuffer(v, o.bitSize);
}

inline void refWrite(const Op& o, Bits& b)
{
    switch (o.kind)
    {
    case U32:
    case U64:
    case S32:
    case S64:
        ref::putInt(b, o.value, o.width);
        break;
    case BOOL:
        b.put(static_cast<uint64_t>(o.value), 1);
        break;
    case VAR:
        ref::putVar(b, o.var, o.value);
        break;
    case F16:
        b.put(ref::toHalf(o.d), 16);
        break;
    case F32:
        b.put(ref::f32bits(static_cast<float>(o.d)), 32);
        break;
    case F64:
        b.put(ref::f64bits(o.d), 64);
        break;
    case BYTES:
    case STRING:
        ref::putBlob(b, o.blob);
        break;
    case BITBUF:
        ref::putBitBuffer(b, Bits::fromBytes(reinterpret_cast<const uint8_t*>(o.blob.data()), o.bitSize));
        break;
    case ALIGN:
        b.align(o.width);
        break;
    default:
        break;
    }
}

inline void rtWrite(const Op& o, zserio::BitStreamWriter& w)
{
    switch (o.kind)
    {
    case U32:
        w.writeUnsignedBits32(static_cast<uint32_t>(o.value), static_cast<uint8_t>(o.width));
        break;
    case U64:
        w.writeUnsignedBits64(static_cast<uint64_t>(o.value), static_cast<uint8_t>(o.width));
        break;
    case S32:
        w.writeSignedBits32(static_cast<int32_t>(o.value), static_cast<uint8_t>(o.width));
        break;
    case S64:
        w.writeSignedBits64(static_cast<int64_t>(o.value), static_cast<uint8_t>(o.width));
        break;
    case BOOL:
        w.writeBool(o.value != 0);
        break;
    case VAR:
        switch (o.var)
        {
        case Var::I16:
            w.writeVarInt16(static_cast<int16_t>(o.value));
            break;
        case Var::I32:
            w.writeVarInt32(static_cast<int32_t>(o.value));
            break;
        case Var::I64:
            w.writeVarInt64(static_cast<int64_t>(o.value));
            break;
        case Var::I:
            w.writeVarInt(static_cast<int64_t>(o.value));
            break;
        case Var::U16:
            w.writeVarUInt16(static_cast<uint16_t>(o.value));
            break;
        case Var::U32:
            w.writeVarUInt32(static_cast<uint32_t>(o.value));
            break;
        case Var::U64:
            w.writeVarUInt64(static_cast<uint64_t>(o.value));
            break;
        case Var::U:
            w.writeVarUInt(static_cast<uint64_t>(o.value));
            break;
        case Var::SIZE:
            w.writeVarSize(static_cast<uint32_t>(o.value));
            break;
        }
        break;
    case F16:
        w.writeFloat16(static_cast<float>(o.d));
        break;
    case F32:
        w.writeFloat32(static_cast<float>(o.d));
        break;
    case F64:
        w.writeFloat64(o.d);
        break;
    case BYTES:
        w.writeBytes(zserio::BytesView(reinterpret_cast<const uint8_t*>(o.blob.data()), o.blob.size()));
        break;
    case STRING:
        w.writeString(o.blob);
        break;
    case BITBUF:
        w.writeBitBuffer(toBitBuffer(o));
        break;
    case ALIGN:
        w.alignTo(o.width);
        break;
    default:
        break;
    }
}

// result of a read, comparable
struct Val
{
    i128 i = 0;
    uint64_t f = 0; // float pattern (NaN canonicalised)
    std::string blob;
    size_t bitSize = 0;

    bool operator==(const Val& o) const
    {
        return i == o.i && f == o.f && blob == o.blob && bitSize == o.bitSize;
    }

    std::string text() const
    {
        return vh::str(i < 0 ? "-" : "", static_cast<uint64_t>(i < 0 ? -i : i), " f=", f, " n=", blob.size(), "/",
                bitSize, " ", vh::hex(blob.data(), blob.size(), 16));
    }
};

inline uint64_t canon64(double d)
{
    return std::isnan(d) ? 0x7ff8000000000001ULL : ref::f64bits(d);
}

inline std::string maskBlob(std::string s, size_t bits)
{
    s.resize((bits + 7) / 8);
    if (bits % 8 != 0)
    {
        s.back() = static_cast<char>(static_cast<uint8_t>(s.back()) & static_cast<uint8_t>(0xFFU << (8 - bits % 8)));
    }
    return s;
}

// value expected after the write/read of the op
inline Val expected(const Op& o)
{
    Val v;
    switch (o.kind)
    {
    case F16:
        v.f = canon64(ref::halfValue(ref::toHalf(o.d)));
        if (std::isnan(o.d))
        {
            v.f = canon64(o.d);
        }
        break;
    case F32:
        v.f = canon64(static_cast<float>(o.d));
        break;
    case F64:
        v.f = canon64(o.d);
        break;
    case BYTES:
    case STRING:
        v.blob = o.blob;
        break;
    case BITBUF:
        v.blob = maskBlob(o.blob, o.bitSize);
        v.bitSize = o.bitSize;
        break;
    case ALIGN:
        break;
    default:
        v.i = o.value;
    }
    return v;
}

inline Val rtRead(const Op& o, zserio::BitStreamReader& r)
{
    Val v;
    switch (o.kind)
    {
    case U32:
        v.i = r.readUnsignedBits32(static_cast<uint8_t>(o.width));
        break;
    case U64:
        v.i = static_cast<i128>(r.readUnsignedBits64(static_cast<uint8_t>(o.width)));
        break;
    case S32:
        v.i = r.readSignedBits32(static_cast<uint8_t>(o.width));
        break;
    case S64:
        v.i = r.readSignedBits64(static_cast<uint8_t>(o.width));
        break;
    case BOOL:
        v.i = static_cast<bool>(r.readBool()) ? 1 : 0;
        break;
    case VAR:
        switch (o.var)
        {
        case Var::I16:
            v.i = static_cast<int16_t>(r.readVarInt16());
            break;
        case Var::I32:
            v.i = static_cast<int32_t>(r.readVarInt32());
            break;
        case Var::I64:
            v.i = static_cast<int64_t>(r.readVarInt64());
            break;
        case Var::I:
            v.i = static_cast<int64_t>(r.readVarInt());
            break;
        case Var::U16:
            v.i = static_cast<uint16_t>(r.readVarUInt16());
            break;
        case Var::U32:
            v.i = static_cast<uint32_t>(r.readVarUInt32());
            break;
        case Var::U64:
            v.i = static_cast<i128>(static_cast<uint64_t>(r.readVarUInt64()));
            break;
        case Var::U:
            v.i = static_cast<i128>(static_cast<uint64_t>(r.readVarUInt()));
            break;
        case Var::SIZE:
            v.i = static_cast<uint32_t>(r.readVarSize());
            break;
        }
        break;
    case F16:
        v.f = canon64(static_cast<float>(r.readFloat16()));
        break;
    case F32:
        v.f = canon64(static_cast<float>(r.readFloat32()));
        break;
    case F64:
        v.f = canon64(static_cast<double>(r.readFloat64()));
        break;
    case BYTES:
    {
        const auto b = r.readBytes();
        v.blob.assign(reinterpret_cast<const char*>(b.data()), b.size());
        break;
    }
    case STRING:
    {
        const auto s = r.readString();
        v.blob.assign(s.data(), s.size());
        break;
    }
    case BITBUF:
    {
        const auto bb = r.readBitBuffer();
        v.bitSize = bb.getBitSize();
        const auto sp = bb.getData();
        v.blob = maskBlob(std::string(reinterpret_cast<const char*>(sp.data()), sp.size()), v.bitSize);
        break;
    }
    case ALIGN:
        r.alignTo(o.width);
        break;
    default:
        break;
    }
    return v;
}

// reference read; pos advances on success only
inline ref::Dec refRead(const Op& o, const Bits& b, size_t& pos, Val& v)
{
    v = Val();
    size_t p = pos;
    auto fixed = [&](unsigned n, uint64_t& u) {
        if (p + n > b.size())
        {
            return false;
        }
        u = b.get(p, n);
        p += n;
        return true;
    };
    uint64_t u = 0;
    switch (o.kind)
    {
    case U32:
    case U64:
        if (!fixed(o.width, u))
        {
            return ref::Dec::EOS;
        }
        v.i = static_cast<i128>(u);
        break;
    case S32:
    case S64:
        if (!fixed(o.width, u))
        {
            return ref::Dec::EOS;
        }
        v.i = ref::signExtend(u, o.width);
        break;
    case BOOL:
        if (!fixed(1, u))
        {
            return ref::Dec::EOS;
        }
        v.i = static_cast<i128>(u);
        break;
    case VAR:
    {
        const auto d = ref::getVar(b, p, o.var, v.i);
        if (d != ref::Dec::OK)
        {
            return d;
        }
        break;
    }
    case F16:
        if (!fixed(16, u))
        {
            return ref::Dec::EOS;
        }
        v.f = canon64(ref::halfValue(static_cast<uint16_t>(u)));
        break;
    case F32:
        if (!fixed(32, u))
        {
            return ref::Dec::EOS;
        }
        v.f = canon64(ref::bitsF32(static_cast<uint32_t>(u)));
        break;
    case F64:
        if (!fixed(64, u))
        {
            return ref::Dec::EOS;
        }
        v.f = canon64(ref::bitsF64(u));
        break;
    case BYTES:
    case STRING:
    case BITBUF:
    {
        i128 len = 0;
        const auto d = ref::getVar(b, p, Var::SIZE, len);
        if (d != ref::Dec::OK)
        {
            return d;
        }
        const i128 bits = o.kind == BITBUF ? len : len * 8;
        if (static_cast<i128>(p) + bits > static_cast<i128>(b.size()))
        {
            return ref::Dec::EOS;
        }
        Bits part;
        part.v.assign(b.v.begin() + static_cast<long>(p), b.v.begin() + static_cast<long>(p + static_cast<size_t>(bits)));
        const auto bytes = part.toBytes();
        v.blob.assign(bytes.begin(), bytes.end());
        v.bitSize = o.kind == BITBUF ? static_cast<size_t>(bits) : 0;
        p += static_cast<size_t>(bits);
        break;
    }
    case ALIGN:
    {
        const size_t rest = p % o.width;
        if (rest != 0)
        {
            if (p + (o.width - rest) > b.size())
            {
                return ref::Dec::EOS;
            }
            p += o.width - rest;
        }
        break;
    }
    default:
        break;
    }
    pos = p;
    return ref::Dec::OK;
}

} // namespace ops
