// C03: writer rejects what does not fit and never writes outside its buffer
#include <sys/mman.h>

#include <memory>

#include "ops.h"

using namespace ops;

namespace
{

enum class Res
{
    OK,
    CAPACITY,
    REJECT
};

template <typename F>
Res attempt(F&& f)
{
    try
    {
        f();
        return Res::OK;
    }
    catch (const zserio::BitStreamWriter::InsufficientCapacityException&)
    {
        return Res::CAPACITY;
    }
    catch (const zserio::CppRuntimeException&)
    {
        return Res::REJECT;
    }
}

const char* name(Res r)
{
    return r == Res::OK ? "ok" : (r == Res::CAPACITY ? "capacity" : "reject");
}

} // namespace

// value does not fit the width -> exception, nothing stored
VH_SECTION(width_limits, 256, 256)
{
    auto& r = c.rng;
    const auto w = static_cast<uint8_t>(c.idx);
    for (int kind : {U32, U64, S32, S64})
    {
        const bool sgn = kind == S32 || kind == S64;
        const unsigned tb = (kind == U32 || kind == S32) ? 32 : 64;
        const bool validWidth = w >= 1 && w <= tb;
        const i128 hi = !validWidth ? 0 : (sgn ? (i128(1) << (w - 1)) - 1 : (i128(1) << w) - 1);
        const i128 lo = !validWidth ? 0 : (sgn ? -(i128(1) << (w - 1)) : 0);
        const i128 tmax = sgn ? (i128(1) << (tb - 1)) - 1 : (i128(1) << tb) - 1;
        const i128 tmin = sgn ? -(i128(1) << (tb - 1)) : 0;
        std::vector<i128> vals = {0, 1, -1, hi, hi + 1, hi - 1, hi + 2, lo, lo - 1, lo + 1, tmax, tmin, tmax - 1,
                tmin + 1, hi * 2, hi * 2 + 1, lo * 2};
        for (unsigned i = 0; i < 40; ++i)
        {
            vals.push_back(sgn ? static_cast<i128>(r.sbits(tb)) : static_cast<i128>(r.ubits(tb)));
        }
        for (const i128 v : vals)
        {
            if (v < tmin || v > tmax)
            {
                continue;
            }
            uint8_t buf[24];
            memset(buf, 0x5a, sizeof buf);
            zserio::BitStreamWriter wr(buf, sizeof buf);
            const size_t at = r.below(20);
            wr.setBitPosition(at);
            Op o;
            o.kind = kind;
            o.width = w;
            o.value = v;
            const Res got = attempt([&]() {
                rtWrite(o, wr);
            });
            const bool fits = validWidth && v >= lo && v <= hi;
            c.trace(o.text());
            VH_CHECK(c, got == (fits ? Res::OK : Res::REJECT), "width-check", o.text(), " width ", w, " -> ", name(got));
            if (!fits)
            {
                VH_EQ(c, wr.getBitPosition(), at, "position-after-reject", o.text());
                for (uint8_t b : buf)
                {
                    VH_CHECK(c, b == 0x5a, "buffer-changed-by-reject", o.text());
                }
                wr.writeUnsignedBits32(1, 1);
                VH_EQ(c, wr.getBitPosition(), at + 1, "unusable-after-reject", "");
                c.count("rejected");
            }
            else
            {
                VH_EQ(c, wr.getBitPosition(), at + w, "position-after-write", o.text());
                c.count("accepted");
            }
            // the measuring writer has the same domain
            zserio::BitStreamWriter ms(nullptr, 0);
            const Res m = attempt([&]() {
                rtWrite(o, ms);
            });
            VH_CHECK(c, m == got, "measuring-writer-domain", o.text());
            c.distinct(vh::hashStr(vh::str(static_cast<int>(w), o.text())));
        }
        c.clearTrace();
    }
    if (c.wantSample())
    {
        c.sample(vh::str("width ", static_cast<int>(w), ": values around both limits, all four calls"));
    }
}

VH_SECTION(varint_limits, 9 * 40, 9 * 400)
{
    auto& r = c.rng;
    const Var k = static_cast<Var>(c.idx % 9);
    const unsigned tb = ref::varCTypeBits(k);
    const bool sgn = ref::varSigned(k);
    const i128 tmax = sgn ? (i128(1) << (tb - 1)) - 1 : (i128(1) << tb) - 1;
    const i128 tmin = sgn ? -(i128(1) << (tb - 1)) : 0;
    std::vector<i128> vals;
    for (int d = -3; d <= 3; ++d)
    {
        vals.push_back(ref::varMax(k) + d);
        vals.push_back(ref::varMin(k) + d);
        vals.push_back(tmax + d);
        vals.push_back(tmin + d);
    }
    for (unsigned i = 0; i < 20; ++i)
    {
        vals.push_back(sgn ? static_cast<i128>(r.sbits(tb)) : static_cast<i128>(r.ubits(tb)));
    }
    for (const i128 v : vals)
    {
        if (v < tmin || v > tmax)
        {
            continue;
        }
        Op o;
        o.kind = VAR;
        o.var = k;
        o.value = v;
        uint8_t buf[24];
        memset(buf, 0x5a, sizeof buf);
        zserio::BitStreamWriter wr(buf, sizeof buf);
        const size_t at = r.below(20);
        wr.setBitPosition(at);
        c.trace(o.text());
        const Res got = attempt([&]() {
            rtWrite(o, wr);
        });
        const bool fits = ref::varFits(k, v);
        VH_CHECK(c, got == (fits ? Res::OK : Res::REJECT), "varint-domain", o.text(), " -> ", name(got));
        if (!fits)
        {
            VH_EQ(c, wr.getBitPosition(), at, "position-after-reject", o.text());
            for (uint8_t b : buf)
            {
                VH_CHECK(c, b == 0x5a, "buffer-changed-by-reject", o.text());
            }
        }
        c.count(fits ? "accepted" : "rejected");
        c.distinct(vh::hashStr(o.text()));
    }
    if (c.wantSample())
    {
        c.sample(vh::str(ref::varName(k), ": values around the type limits"));
    }
}

// histories near the end of an exactly sized buffer
VH_SECTION(capacity_histories, 30000, 400000)
{
    auto& r = c.rng;
    const size_t bytes = r.below(48);
    size_t bits = bytes * 8;
    if (bits != 0 && r.chance(60))
    {
        bits -= r.below(r.chance(80) ? 8 : bits + 1);
    }
    std::unique_ptr<uint8_t[]> buf(new uint8_t[bytes]);
    for (size_t i = 0; i < bytes; ++i)
    {
        buf[i] = static_cast<uint8_t>(r.next());
    }
    const int ctor = static_cast<int>(r.below(3));
    zserio::BitStreamWriter wr = ctor == 0 ? zserio::BitStreamWriter(zserio::Span<uint8_t>(buf.get(), bytes), bits)
            : (ctor == 1 || bits != bytes * 8)
            ? zserio::BitStreamWriter(buf.get(), bits, zserio::BitsTag())
            : zserio::BitStreamWriter(buf.get(), bytes);
    VH_EQ(c, wr.getBufferBitSize(), bits, "buffer-bit-size", "");
    Bits model = Bits::fromBytes(buf.get(), bytes * 8);
    size_t pos = 0;
    const size_t n = 1 + r.below(25);
    uint64_t h = vh::mix(bytes, bits);
    for (size_t i = 0; i < n; ++i)
    {
        if (r.chance(30))
        {
            size_t p = r.below(bits + 1);
            if (r.chance(40))
            {
                p = bits - r.below(bits < 40 ? bits + 1 : 40);
            }
            if (r.chance(15))
            {
                p = bits + 1 + r.below(20);
            }
            if (r.chance(4))
            {
                p = ~size_t(0) - r.below(70);
            }
            c.trace(vh::str("seek ", p));
            const Res got = attempt([&]() {
                wr.setBitPosition(p);
            });
            VH_CHECK(c, (got == Res::OK) == (p <= bits), "seek-acceptance", "position ", p, " of ", bits);
            if (got == Res::OK)
            {
                pos = p;
            }
            VH_EQ(c, wr.getBitPosition(), pos, "seek-position", "");
            c.count(got == Res::OK ? "seek" : "seek_rejected");
            continue;
        }
        Op o = randomOp(r, true, 60);
        if (o.kind == F16 && std::isnan(o.d))
        {
            o.d = 2;
        }
        Bits val;
        val.v.assign(model.v.begin(), model.v.begin() + static_cast<long>(pos));
        refWrite(o, val);
        const size_t end = val.size();
        c.trace(vh::str("@", pos, " ", o.text()));
        const Res got = attempt([&]() {
            rtWrite(o, wr);
        });
        h = vh::mix(h, vh::hashStr(o.text()));
        const Bits now = Bits::fromBytes(buf.get(), bytes * 8);
        if (end <= bits)
        {
            VH_CHECK(c, got == Res::OK, "fitting-write-rejected", o.text(), " at ", pos, " of ", bits, " -> ", name(got));
            VH_EQ(c, wr.getBitPosition(), end, "position", o.text());
            std::copy(val.v.begin(), val.v.end(), model.v.begin());
            pos = end;
            VH_CHECK(c, now == model, "written-bits", o.text(), " at ", pos);
            c.count("write_ok");
        }
        else
        {
            VH_CHECK(c, got == Res::CAPACITY, "write-past-end", o.text(), " at ", pos, " of ", bits, " -> ", name(got));
            const size_t np = wr.getBitPosition();
            VH_CHECK(c, np >= pos && np <= bits, "position-after-overflow", "position ", np, " of ", bits);
            for (size_t k = 0; k < now.size(); ++k)
            {
                // bits of the refused value may have been started, everything else must be untouched
                if ((k < pos || k >= bits) && now.v[k] != model.v[k])
                {
                    c.fail("bits-outside-target-changed", vh::str("bit ", k, " changed by refused ", o.text(), " at ",
                            pos, " of ", bits));
                }
            }
            c.eval();
            model = now;
            pos = np;
            c.count("write_refused");
        }
    }
    c.distinct(h);
    if (c.wantSample())
    {
        c.sample(vh::str("buffer ", bits, " bits: ", c.traceText().substr(0, 220)));
    }
}

VH_SECTION(constructor_limits, 3000, 30000)
{
    auto& r = c.rng;
    const size_t bytes = r.below(20);
    std::unique_ptr<uint8_t[]> buf(new uint8_t[bytes]());
    size_t bits = 0;
    switch (r.below(4))
    {
    case 0:
        bits = bytes * 8 + r.below(10);
        break;
    case 1:
        bits = ~size_t(0) - r.below(20);
        break;
    case 2:
        bits = (size_t(1) << r.below(64)) + r.below(9) - 4;
        break;
    default:
        bits = r.below(bytes * 8 + 1);
    }
    c.trace(vh::str("bytes ", bytes, " bits ", bits));
    const Res got = attempt([&]() {
        zserio::BitStreamWriter w(zserio::Span<uint8_t>(buf.get(), bytes), bits);
        VH_CHECK(c, bits <= bytes * 8, "oversized-bit-size-accepted", "bytes ", bytes, " bits ", bits);
        if (bytes == 0)
        {
            return;
        }
        const size_t all = bits;
        for (size_t i = 0; i < all; ++i)
        {
            w.writeUnsignedBits32(1, 1);
        }
        VH_CHECK(c, attempt([&]() {
            w.writeUnsignedBits32(1, 1);
        }) == Res::CAPACITY,
                "write-past-end", "");
    });
    VH_CHECK(c, (got == Res::OK) == (bits <= bytes * 8), "constructor-acceptance", "bytes ", bytes, " bits ", bits);
    c.count(got == Res::OK ? "fitting" : "oversized");
    c.distinct(vh::mix(bytes, bits));
    if (c.wantSample())
    {
        c.sample(vh::str("bytes=", bytes, " bits=", bits, " ", name(got)));
    }
}

// very long byte and string values (address space only, pages never touched when refused)
VH_SECTION(huge_lengths, 24, 48)
{
    auto& r = c.rng;
    const size_t mapSize = (size_t(1) << 32) + 4096;
    void* m = mmap(nullptr, mapSize, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED)
    {
        c.count("mmap_failed");
        return;
    }
    static const size_t lens[] = {(size_t(1) << 29), (size_t(1) << 29) - 1, (size_t(1) << 29) + 5, (size_t(1) << 30),
            (size_t(1) << 31) - 1, (size_t(1) << 31), (size_t(1) << 31) + 1, (size_t(1) << 32) - 1,
            (size_t(1) << 32), (size_t(1) << 32) + 3, (size_t(1) << 30) + (size_t(1) << 29), (size_t(1) << 28)};
    const size_t len = lens[c.idx % 12];
    const bool str = (c.idx / 12) % 2 == 0;
    const bool fitsType = len < (size_t(1) << 31);
    const auto* p = static_cast<const char*>(m);
    uint8_t buf[64];
    memset(buf, 0x77, sizeof buf);
    zserio::BitStreamWriter w(buf, sizeof buf);
    const size_t at = r.chance(70) ? 8 * r.below(3) : r.below(20);
    w.setBitPosition(at);
    c.trace(vh::str(str ? "string " : "bytes ", len, " @", at));
    const Res got = attempt([&]() {
        if (str)
        {
            w.writeString(std::string_view(p, len));
        }
        else
        {
            w.writeBytes(zserio::BytesView(reinterpret_cast<const uint8_t*>(p), len));
        }
    });
    VH_CHECK(c, got != Res::OK, "huge-value-accepted", len);
    VH_CHECK(c, fitsType ? got == Res::CAPACITY : got == Res::REJECT, "huge-value-error", len, " -> ", name(got));
    VH_CHECK(c, w.getBitPosition() <= sizeof buf * 8, "position-after-overflow", w.getBitPosition());
    if (fitsType)
    {
        // measuring writer counts the true size
        zserio::BitStreamWriter ms(nullptr, 0);
        if (str)
        {
            ms.writeString(std::string_view(p, len));
        }
        else
        {
            ms.writeBytes(zserio::BytesView(reinterpret_cast<const uint8_t*>(p), len));
        }
        VH_EQ(c, ms.getBitPosition(), 8 * ref::varBytes(Var::SIZE, static_cast<i128>(len)) + 8 * len, "measured-size",
                len);
    }
    munmap(m, mapSize);
    c.count("values");
    c.distinct(vh::mix(len, str ? 1 : 0));
    if (c.wantSample())
    {
        c.sample(vh::str(str ? "string" : "bytes", " of ", len, " bytes at ", at, ": ", name(got)));
    }
}
