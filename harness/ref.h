// Independent reference model of the zserio encoding, on explicit bit strings.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>

#include "vh.h"

namespace ref
{

struct Bits
{
    std::vector<uint8_t> v; // one bit per element

    size_t size() const
    {
        return v.size();
    }

    void put(uint64_t value, unsigned n)
    {
        for (unsigned i = n; i-- > 0;)
        {
            v.push_back(static_cast<uint8_t>((value >> i) & 1U));
        }
    }

    void append(const Bits& o)
    {
        v.insert(v.end(), o.v.begin(), o.v.end());
    }

    void align(size_t a)
    {
        while (a != 0 && v.size() % a != 0)
        {
            v.push_back(0);
        }
    }

    uint64_t get(size_t pos, unsigned n) const
    {
        uint64_t r = 0;
        for (unsigned i = 0; i < n; ++i)
        {
            r = (r << 1) | v.at(pos + i);
        }
        return r;
    }

    static Bits fromBytes(const uint8_t* p, size_t bits)
    {
        Bits b;
        b.v.reserve(bits);
        for (size_t i = 0; i < bits; ++i)
        {
            b.v.push_back(static_cast<uint8_t>((p[i / 8] >> (7 - i % 8)) & 1));
        }
        return b;
    }

    std::vector<uint8_t> toBytes() const
    {
        std::vector<uint8_t> r((v.size() + 7) / 8, 0);
        for (size_t i = 0; i < v.size(); ++i)
        {
            r[i / 8] = static_cast<uint8_t>(r[i / 8] | (v[i] << (7 - i % 8)));
        }
        return r;
    }

    bool operator==(const Bits& o) const
    {
        return v == o.v;
    }

    std::string text(size_t maxBits = 200) const
    {
        std::string s;
        for (size_t i = 0; i < v.size() && i < maxBits; ++i)
        {
            if (i != 0 && i % 8 == 0)
            {
                s += ' ';
            }
            s += static_cast<char>('0' + v[i]);
        }
        if (v.size() > maxBits)
        {
            s += "...";
        }
        return s;
    }
};

using i128 = __int128;

enum class Var
{
    I16,
    I32,
    I64,
    I,
    U16,
    U32,
    U64,
    U,
    SIZE
};
inline const char* varName(Var k)
{
    static const char* n[] = {"varint16", "varint32", "varint64", "varint", "varuint16", "varuint32", "varuint64",
            "varuint", "varsize"};
    return n[static_cast<int>(k)];
}
inline bool varSigned(Var k)
{
    return k == Var::I16 || k == Var::I32 || k == Var::I64 || k == Var::I;
}
inline unsigned varMaxBytes(Var k)
{
    switch (k)
    {
    case Var::I16:
    case Var::U16:
        return 2;
    case Var::I32:
    case Var::U32:
        return 4;
    case Var::I64:
    case Var::U64:
        return 8;
    case Var::I:
    case Var::U:
        return 9;
    default:
        return 5;
    }
}
inline unsigned varCTypeBits(Var k)
{
    switch (k)
    {
    case Var::I16:
    case Var::U16:
        return 16;
    case Var::I32:
    case Var::U32:
    case Var::SIZE:
        return 32;
    default:
        return 64;
    }
}
// number of value bits available with n bytes
inline unsigned varCapacity(Var k, unsigned nBytes)
{
    const unsigned maxB = varMaxBytes(k);
    unsigned bits = (varSigned(k) ? 6 : 7) + (nBytes - 1) * 7;
    if (nBytes == maxB)
    {
        ++bits; // last byte has no has-next bit
    }
    return bits;
}
inline i128 varMax(Var k)
{
    if (k == Var::SIZE)
    {
        return (i128(1) << 31) - 1;
    }
    return (i128(1) << varCapacity(k, varMaxBytes(k))) - 1;
}
inline i128 varMin(Var k)
{
    if (!varSigned(k))
    {
        return 0;
    }
    if (k == Var::I)
    {
        return -(i128(1) << 63);
    }
    return -varMax(k);
}
inline bool varFits(Var k, i128 v)
{
    return v >= varMin(k) && v <= varMax(k);
}
inline unsigned varBytes(Var k, i128 v)
{
    if (k == Var::I && v == -(i128(1) << 63))
    {
        return 1;
    }
    const i128 a = v < 0 ? -v : v;
    for (unsigned n = 1; n <= varMaxBytes(k); ++n)
    {
        if (a < (i128(1) << varCapacity(k, n)))
        {
            return n;
        }
    }
    return 0;
}
// encode with explicit number of bytes (shortest by default)
inline void putVar(Bits& b, Var k, i128 v, unsigned nBytes = 0)
{
    if (k == Var::I && v == -(i128(1) << 63) && nBytes == 0)
    {
        b.put(0x80, 8);
        return;
    }
    if (nBytes == 0)
    {
        nBytes = varBytes(k, v);
    }
    const i128 a = v < 0 ? -v : v;
    const bool isMax = nBytes == varMaxBytes(k);
    // value bits from the most significant group on
    unsigned remaining = varCapacity(k, nBytes);
    for (unsigned i = 0; i < nBytes; ++i)
    {
        unsigned group = 8;
        if (i == 0 && varSigned(k))
        {
            b.put(v < 0 ? 1 : 0, 1);
            --group;
        }
        const bool last = (i + 1 == nBytes);
        if (!(last && isMax))
        {
            b.put(last ? 0 : 1, 1);
            --group;
        }
        remaining -= group;
        b.put(static_cast<uint64_t>((a >> remaining) & ((i128(1) << group) - 1)), group);
    }
}

enum class Dec
{
    OK,
    EOS, // end of stream
    RANGE // well-formed bits, value outside the type
};

// decode; pos advances only on success
inline Dec getVar(const Bits& b, size_t& pos, Var k, i128& out)
{
    size_t p = pos;
    bool neg = false;
    i128 a = 0;
    const unsigned maxB = varMaxBytes(k);
    for (unsigned i = 0; i < maxB; ++i)
    {
        if (p + 8 > b.size())
        {
            return Dec::EOS;
        }
        unsigned group = 8;
        if (i == 0 && varSigned(k))
        {
            neg = b.get(p, 1) != 0;
            ++p;
            --group;
        }
        bool next = false;
        if (i + 1 < maxB)
        {
            next = b.get(p, 1) != 0;
            ++p;
            --group;
        }
        a = (a << group) | static_cast<i128>(b.get(p, group));
        p += group;
        if (!next)
        {
            if (i == 0 && k == Var::I && neg && a == 0)
            {
                out = -(i128(1) << 63);
            }
            else
            {
                out = neg ? -a : a;
            }
            pos = p;
            if (k == Var::SIZE && a > varMax(k))
            {
                return Dec::RANGE;
            }
            return Dec::OK;
        }
    }
    return Dec::EOS;
}

// signed/unsigned fixed width
inline void putInt(Bits& b, i128 v, unsigned n)
{
    b.put(static_cast<uint64_t>(v), n);
}
inline i128 signExtend(uint64_t u, unsigned n)
{
    const i128 v = static_cast<i128>(u);
    if (n != 0 && ((u >> (n - 1)) & 1U) != 0)
    {
        return v - (i128(1) << n);
    }
    return v;
}

// --- floats -----------------------------------------------------------------------------------------------
inline uint32_t f32bits(float f)
{
    uint32_t u = 0;
    memcpy(&u, &f, 4);
    return u;
}
inline uint64_t f64bits(double f)
{
    uint64_t u = 0;
    memcpy(&u, &f, 8);
    return u;
}
inline float bitsF32(uint32_t u)
{
    float f = 0;
    memcpy(&f, &u, 4);
    return f;
}
inline double bitsF64(uint64_t u)
{
    double f = 0;
    memcpy(&f, &u, 8);
    return f;
}
// value of a half pattern (NaN gives NaN)
inline double halfValue(uint16_t h)
{
    const int sign = (h >> 15) ? -1 : 1;
    const int exp = (h >> 10) & 31;
    const int man = h & 1023;
    double v = 0;
    if (exp == 31)
    {
        if (man != 0)
        {
            return std::nan("");
        }
        v = INFINITY;
    }
    else if (exp == 0)
    {
        v = std::ldexp(static_cast<double>(man), -24);
    }
    else
    {
        v = std::ldexp(static_cast<double>(1024 + man), exp - 25);
    }
    return sign < 0 ? -v : v;
}
// round to nearest, ties away from zero (as the tests of the runtime fix it), below 2^-24 zero; NaN returns 0x7e00|sign (payload not specified)
inline uint16_t toHalf(double f)
{
    const bool neg = std::signbit(f);
    const uint16_t s = neg ? 0x8000 : 0;
    if (std::isnan(f))
    {
        return static_cast<uint16_t>(s | 0x7e00);
    }
    double a = std::fabs(f);
    if (a >= 65520.0)
    {
        return static_cast<uint16_t>(s | 0x7c00);
    }
    if (a < std::ldexp(1.0, -24))
    {
        return s;
    }
    int e = 0;
    (void)std::frexp(a, &e); // a = m * 2^e, m in [0.5,1)
    // unit in the last place: normal: 2^(e-11), subnormal 2^-24
    int ulp = e - 11;
    if (ulp < -24)
    {
        ulp = -24;
    }
    const double q = std::ldexp(a, -ulp); // exact
    double r = std::floor(q);
    const double d = q - r;
    if (d >= 0.5)
    {
        r += 1;
    }
    const double val = std::ldexp(r, ulp);
    if (val == 0)
    {
        return s;
    }
    if (val >= 65536.0)
    {
        return static_cast<uint16_t>(s | 0x7c00);
    }
    int e2 = 0;
    (void)std::frexp(val, &e2);
    if (e2 - 1 < -14)
    {
        return static_cast<uint16_t>(s | static_cast<uint16_t>(std::ldexp(val, 24)));
    }
    const int exp = e2 - 1 + 15;
    const auto man = static_cast<uint16_t>(std::ldexp(val, 11 - e2)) & 1023;
    return static_cast<uint16_t>(s | (exp << 10) | man);
}

inline void putBlob(Bits& b, std::string_view s)
{
    putVar(b, Var::SIZE, static_cast<i128>(s.size()));
    for (unsigned char ch : s)
    {
        b.put(ch, 8);
    }
}

inline void putBitBuffer(Bits& b, const Bits& content)
{
    putVar(b, Var::SIZE, static_cast<i128>(content.size()));
    b.append(content);
}

// delta packing of one integer-like field sequence --------------------------------------------------------
struct Delta
{
    bool packed = false;
    unsigned maxBits = 0;
};

inline unsigned bitLength(i128 absValue)
{
    unsigned n = 0;
    while (absValue > 0)
    {
        ++n;
        absValue >>= 1;
    }
    return n;
}

} // namespace ref
