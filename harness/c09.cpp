// C09: float conversions
#include "ops.h"
#include "zserio/FloatUtil.h"

using namespace ops;

VH_SECTION(half_exhaustive, 64, 64)
{
    for (unsigned i = 0; i < 1024; ++i)
    {
        const auto h = static_cast<uint16_t>(c.idx * 1024 + i);
        const float f = zserio::convertUInt16ToFloat(h);
        const double want = ref::halfValue(h);
        _Float16 native;
        memcpy(&native, &h, 2);
        if (std::isnan(want))
        {
            VH_CHECK(c, std::isnan(f), "half-nan", "pattern ", h, " became ", f);
            VH_CHECK(c, std::signbit(f) == ((h >> 15) != 0), "half-nan-sign", "pattern ", h);
        }
        else
        {
            VH_CHECK(c, ref::f32bits(f) == ref::f32bits(static_cast<float>(want)), "half-value", "pattern ", h, " got ",
                    f, " expected ", want);
            VH_CHECK(c, ref::f32bits(f) == ref::f32bits(static_cast<float>(native)), "half-value-native", "pattern ", h);
        }
        const uint16_t back = zserio::convertFloatToUInt16(f);
        VH_EQ(c, back, h, "half-round-trip", "float ", f);
        c.distinct(h);
    }
    c.count("blocks");
    if (c.wantSample())
    {
        c.sample(vh::str("half patterns ", c.idx * 1024, "..", c.idx * 1024 + 1023));
    }
}

namespace
{

void single(vh::Case& c, uint32_t u)
{
    const float f = ref::bitsF32(u);
    uint32_t viaConv = 0;
    {
        const float g = zserio::convertUInt32ToFloat(u);
        memcpy(&viaConv, &g, 4);
    }
    VH_EQ(c, viaConv, u, "single-from-bits", "");
    VH_EQ(c, zserio::convertFloatToUInt32(f), u, "single-to-bits", "");
    const uint16_t h = zserio::convertFloatToUInt16(f);
    if (std::isnan(f))
    {
        VH_CHECK(c, (h & 0x7c00) == 0x7c00 && (h & 0x3ff) != 0, "nan-lost", "single pattern ", u, " became half ", h);
        VH_EQ(c, h >> 15, u >> 31, "nan-sign", "single pattern ", u);
        return;
    }
    const uint16_t want = ref::toHalf(f);
    VH_EQ(c, h, want, "to-half", "single pattern ", u, " = ", f);
    // second oracle: no half value is nearer than the chosen one (checked on the bit neighbours)
    if ((h & 0x7fff) < 0x7c00 && std::fabs(f) >= 5.9604644775390625e-08f)
    {
        const double v = ref::halfValue(h);
        const double d = std::fabs(static_cast<double>(f) - v);
        if ((h & 0x7fff) > 0)
        {
            const double dn = std::fabs(static_cast<double>(f) - ref::halfValue(static_cast<uint16_t>(h - 1)));
            VH_CHECK(c, d <= dn, "not-nearest", "single pattern ", u);
        }
        if ((h & 0x7fff) < 0x7bff)
        {
            const double up = std::fabs(static_cast<double>(f) - ref::halfValue(static_cast<uint16_t>(h + 1)));
            VH_CHECK(c, d <= up, "not-nearest", "single pattern ", u);
        }
    }
}

} // namespace

// every exponent with boundary-dense significands, both signs
VH_SECTION(single_dense, 256, 256)
{
    auto& r = c.rng;
    const auto e = static_cast<uint32_t>(c.idx);
    for (unsigned i = 0; i < 3000; ++i)
    {
        uint32_t m = 0;
        switch (i % 6)
        {
        case 0: // around a half step
            m = static_cast<uint32_t>((r.below(1024) << 13) + 0x1000 + r.below(3) - 1);
            break;
        case 1: // around a representable half
            m = static_cast<uint32_t>((r.below(1024) << 13) + r.below(3) - 1);
            break;
        case 2:
            m = 1U << r.below(23);
            break;
        case 3: // half step of a subnormal half
            m = static_cast<uint32_t>((r.next() & 0x7fffff) & ~((uint64_t(1) << r.below(23)) - 1)) + static_cast<uint32_t>(r.below(3)) - 1;
            break;
        default:
            m = static_cast<uint32_t>(r.ubits(23));
        }
        m &= 0x7fffff;
        if (i < 4)
        {
            m = (i < 2) ? i : (i == 2 ? 0x7fffff : 0x7fe000);
        }
        single(c, (e << 23) | m);
        single(c, 0x80000000U | (e << 23) | m);
        c.distinct((e << 23) | m);
    }
    c.count("exponents");
    if (c.wantSample())
    {
        c.sample(vh::str("single exponent field ", e, ", 3000 significands, both signs"));
    }
}

VH_SECTION(single_range, 512, 4096)
{
    // quick: a random 2^14 window per case; thorough: the whole 2^32 space in blocks
    const uint64_t n = c.thorough ? (uint64_t(1) << 20) : (uint64_t(1) << 14);
    const uint64_t base = c.thorough ? c.idx * n : (c.rng.next() & 0xffffc000U);
    for (uint64_t i = 0; i < n; ++i)
    {
        const auto u = static_cast<uint32_t>(base + i);
        const float f = ref::bitsF32(u);
        const uint16_t h = zserio::convertFloatToUInt16(f);
        const uint16_t want = ref::toHalf(f);
        if (std::isnan(f) ? !((h & 0x7c00) == 0x7c00 && (h & 0x3ff) != 0) : h != want)
        {
            c.fail("to-half-window", vh::str("single pattern ", u, " got ", h, " expected ", want));
        }
    }
    c.eval(n);
    c.distinct(base);
    c.count("window_values", n);
    if (c.wantSample())
    {
        c.sample(vh::str("single patterns from ", base, " count ", n));
    }
}

VH_SECTION(double_bits, 64, 640)
{
    auto& r = c.rng;
    for (unsigned i = 0; i < 2000; ++i)
    {
        const uint64_t u = i % 3 == 0 ? r.next() : ((r.ubits(12) << 52) | r.ubits(52));
        const double d = zserio::convertUInt64ToDouble(u);
        uint64_t back = 0;
        memcpy(&back, &d, 8);
        VH_EQ(c, back, u, "double-from-bits", "");
        VH_EQ(c, zserio::convertDoubleToUInt64(ref::bitsF64(u)), u, "double-to-bits", "");
        c.distinct(u);
    }
    c.count("blocks");
    if (c.wantSample())
    {
        c.sample("random and boundary-dense double patterns");
    }
}

// through the bit stream, as users see it
VH_SECTION(stream, 2000, 20000)
{
    auto& r = c.rng;
    for (unsigned i = 0; i < 20; ++i)
    {
        uint8_t buf[24] = {};
        zserio::BitStreamWriter w(buf, sizeof buf);
        const size_t at = r.below(9);
        w.setBitPosition(at);
        const float f = randomF32(r);
        const double d = ref::bitsF64(r.next());
        w.writeFloat16(f);
        w.writeFloat32(f);
        w.writeFloat64(d);
        zserio::BitStreamReader rd(buf, sizeof buf);
        rd.setBitPosition(at);
        const float h = rd.readFloat16();
        const float s = rd.readFloat32();
        const double b = rd.readFloat64();
        if (std::isnan(f))
        {
            VH_CHECK(c, std::isnan(h), "stream-half-nan", "");
        }
        else
        {
            VH_CHECK(c, ref::f64bits(h) == ref::f64bits(ref::halfValue(ref::toHalf(f))), "stream-half", f, " -> ", h);
        }
        VH_EQ(c, ref::f32bits(s), ref::f32bits(f), "stream-single", "");
        VH_EQ(c, ref::f64bits(b), ref::f64bits(d), "stream-double", "");
        c.distinct(vh::mix(ref::f32bits(f), ref::f64bits(d)));
    }
    if (c.wantSample())
    {
        c.sample("float16/32/64 through writer and reader at random bit offsets");
    }
}
