// C04: reader is memory safe and exact on arbitrary input
#include <memory>

#include "ops.h"

using namespace ops;

namespace
{

Op randomReadOp(vh::Rng& r)
{
    Op o;
    if (r.chance(10))
    {
        o.kind = ALIGN;
        o.width = 1 + static_cast<unsigned>(r.chance(70) ? r.below(64) : r.below(600));
        return o;
    }
    o.kind = static_cast<int>(r.below(KIND_COUNT));
    if (r.chance(30))
    {
        o.kind = static_cast<int>(r.below(4));
    }
    if (o.kind == U32 || o.kind == S32)
    {
        o.width = 1 + static_cast<unsigned>(r.below(32));
    }
    else if (o.kind == U64 || o.kind == S64)
    {
        o.width = 1 + static_cast<unsigned>(r.below(64));
    }
    o.var = static_cast<Var>(r.below(9));
    return o;
}

} // namespace

VH_SECTION(hostile_histories, 40000, 600000)
{
    auto& r = c.rng;
    const size_t bytes = r.chance(80) ? r.below(40) : r.below(c.thorough ? 4000 : 600);
    std::unique_ptr<uint8_t[]> buf(new uint8_t[bytes]); // exactly sized: ASan guards both ends
    for (size_t i = 0; i < bytes; ++i)
    {
        buf[i] = static_cast<uint8_t>(r.chance(20) ? 0xFF : (r.chance(30) ? r.below(24) : r.next()));
    }
    size_t bits = bytes * 8;
    if (bits > 0 && r.chance(70))
    {
        bits -= r.below(r.chance(80) ? 8 : bits + 1);
    }
    const Bits content = Bits::fromBytes(buf.get(), bits);
    zserio::BitStreamReader rd = [&]() {
        switch (r.below(3))
        {
        case 0:
            return zserio::BitStreamReader(zserio::Span<const uint8_t>(buf.get(), bytes), bits);
        case 1:
            return zserio::BitStreamReader(buf.get(), bits, zserio::BitsTag());
        default:
            return bits == bytes * 8 ? zserio::BitStreamReader(buf.get(), bytes)
                                     : zserio::BitStreamReader(zserio::Span<const uint8_t>(buf.get(), bytes), bits);
        }
    }();
    VH_EQ(c, rd.getBufferBitSize(), bits, "buffer-bit-size", "");
    const size_t n = 1 + r.below(60);
    uint64_t h = vh::hashStr(std::string_view(reinterpret_cast<const char*>(buf.get()), bytes));
    for (size_t i = 0; i < n; ++i)
    {
        size_t pos = rd.getBitPosition();
        VH_CHECK(c, pos <= bits, "position-beyond-end", "position ", pos, " of ", bits);
        const unsigned what = static_cast<unsigned>(r.below(20));
        if (what == 0)
        {
            // seek anywhere, also beyond the end
            size_t p = r.below(bits + 1);
            if (r.chance(25))
            {
                p = bits + 1 + r.below(100);
            }
            if (r.chance(5))
            {
                p = ~size_t(0) - r.below(70);
            }
            c.trace(vh::str("seek ", p));
            bool thrown = false;
            try
            {
                rd.setBitPosition(p);
            }
            catch (const zserio::CppRuntimeException&)
            {
                thrown = true;
            }
            VH_EQ(c, thrown, p > bits, "seek-acceptance", "position ", p, " of ", bits);
            VH_EQ(c, rd.getBitPosition(), thrown ? pos : p, "seek-position", "");
            c.count(thrown ? "seek_rejected" : "seek");
            continue;
        }
        if (what == 1)
        {
            // invalid bit counts
            const uint8_t w = static_cast<uint8_t>(r.flip() ? 0 : 33 + r.below(223));
            const bool w64ok = w >= 1 && w <= 64;
            bool t[4] = {false, false, false, false};
            c.trace(vh::str("badwidth ", static_cast<int>(w)));
            try
            {
                (void)rd.readUnsignedBits32(w);
            }
            catch (const zserio::CppRuntimeException&)
            {
                t[0] = true;
            }
            try
            {
                (void)rd.readSignedBits32(w);
            }
            catch (const zserio::CppRuntimeException&)
            {
                t[1] = true;
            }
            VH_CHECK(c, t[0] && t[1], "invalid-width-accepted", "32-bit read of ", w, " bits");
            if (!w64ok)
            {
                try
                {
                    (void)rd.readUnsignedBits64(w);
                }
                catch (const zserio::CppRuntimeException&)
                {
                    t[2] = true;
                }
                try
                {
                    (void)rd.readSignedBits64(w);
                }
                catch (const zserio::CppRuntimeException&)
                {
                    t[3] = true;
                }
                VH_CHECK(c, t[2] && t[3], "invalid-width-accepted", "64-bit read of ", w, " bits");
            }
            VH_EQ(c, rd.getBitPosition(), pos, "invalid-width-moves", "");
            c.count("invalid_width");
            continue;
        }
        const Op o = randomReadOp(r);
        Val want;
        size_t refPos = pos;
        const auto dec = refRead(o, content, refPos, want);
        c.trace(vh::str("@", pos, " ", o.text()));
        h = vh::mix(h, static_cast<uint64_t>(o.kind) * 100 + o.width);
        bool thrown = false;
        Val got;
        try
        {
            got = rtRead(o, rd);
        }
        catch (const zserio::CppRuntimeException&)
        {
            thrown = true;
        }
        if (dec == ref::Dec::OK)
        {
            VH_CHECK(c, !thrown, "valid-read-rejected", o.text(), " at ", pos, " of ", bits);
            VH_CHECK(c, got == want, "read-value", o.text(), " at ", pos, " of ", bits, " got ", got.text(),
                    " expected ", want.text());
            VH_EQ(c, rd.getBitPosition(), refPos, "read-position", o.text(), " from ", pos);
            c.count("read_ok");
        }
        else
        {
            VH_CHECK(c, thrown, "read-past-end-accepted", o.text(), " at ", pos, " of ", bits, " got ", got.text());
            c.count(dec == ref::Dec::EOS ? "read_eos" : "read_range");
        }
    }
    c.distinct(h);
    if (c.wantSample())
    {
        c.sample(vh::str(bytes, " bytes, ", bits, " bits, ", n, " calls: ", c.traceText().substr(0, 200)));
    }
}

// constructors must reject a bit size larger than the data
VH_SECTION(constructor_limits, 3000, 20000)
{
    auto& r = c.rng;
    const size_t bytes = r.below(20);
    std::unique_ptr<uint8_t[]> buf(new uint8_t[bytes]());
    size_t bits = 0;
    switch (r.below(5))
    {
    case 0:
        bits = bytes * 8 + r.below(10);
        break;
    case 1:
        bits = ~size_t(0) - r.below(20);
        break;
    case 2:
        bits = (size_t(1) << r.below(64)) + r.below(9) - 4;
        break;
    default:
        bits = r.below(bytes * 8 + 1);
    }
    bool thrown = false;
    c.trace(vh::str("bytes ", bytes, " bits ", bits));
    try
    {
        zserio::BitStreamReader rd(zserio::Span<const uint8_t>(buf.get(), bytes), bits);
        VH_CHECK(c, bits <= bytes * 8, "oversized-bit-size-accepted", "bytes ", bytes, " bits ", bits);
        for (size_t i = 0; i < 30; ++i)
        {
            (void)rd.readUnsignedBits32(8);
        }
    }
    catch (const zserio::CppRuntimeException&)
    {
        thrown = true;
    }
    if (bits <= bytes * 8 && bytes * 8 >= 240)
    {
        VH_CHECK(c, !thrown, "valid-bit-size-rejected", "");
    }
    c.count(bits > bytes * 8 ? "oversized" : "fitting");
    c.distinct(vh::mix(bytes, bits));
    if (c.wantSample())
    {
        c.sample(vh::str("bytes=", bytes, " bits=", bits, thrown ? " rejected/eos" : ""));
    }
}

// forged length prefixes: refused without allocating for them
VH_SECTION(forged_lengths, 4000, 40000)
{
    auto& r = c.rng;
    Op o;
    o.kind = BYTES + static_cast<int>(r.below(3));
    Bits b;
    const size_t at = r.below(17);
    b.v.assign(at, 1);
    const i128 len = static_cast<i128>(r.ubits(31));
    ref::putVar(b, Var::SIZE, len);
    const size_t have = r.below(200);
    for (size_t i = 0; i < have; ++i)
    {
        b.put(r.next() & 0xff, 8);
    }
    const auto bytes = b.toBytes();
    std::unique_ptr<uint8_t[]> buf(new uint8_t[bytes.size()]);
    std::copy(bytes.begin(), bytes.end(), buf.get());
    zserio::BitStreamReader rd(zserio::Span<const uint8_t>(buf.get(), bytes.size()), b.size());
    rd.setBitPosition(at);
    size_t pos = at;
    Val want;
    const auto dec = refRead(o, b, pos, want);
    vh::resetAllocStats();
    bool thrown = false;
    Val got;
    try
    {
        got = rtRead(o, rd);
    }
    catch (const zserio::CppRuntimeException&)
    {
        thrown = true;
    }
    const uint64_t big = vh::largestAlloc();
    c.trace(vh::str("kind ", o.kind, " claimed ", static_cast<uint64_t>(len), " have ", have));
    VH_EQ(c, thrown, dec != ref::Dec::OK, "forged-length-acceptance", "claimed ", static_cast<uint64_t>(len), " have ",
            have);
    if (!thrown)
    {
        VH_CHECK(c, got == want, "value", "");
    }
    VH_CHECK(c, big <= 1024, "allocation-for-claimed-length", "largest allocation ", big, " bytes for ", have,
            " bytes of data");
    c.count(thrown ? "refused" : "accepted");
    c.distinct(vh::mix(static_cast<uint64_t>(len), have));
    if (c.wantSample())
    {
        c.sample(vh::str("kind=", o.kind, " claimed=", static_cast<uint64_t>(len), " have=", have, " -> ",
                thrown ? "refused" : "accepted", ", largest allocation ", big));
    }
}
