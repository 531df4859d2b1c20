// C01: bit stream write/read round trip at every bit position
#include <utility>

#include "ops.h"
#include "zserio/Types.h"

using namespace ops;

namespace
{

struct Hist
{
    size_t start = 0;
    size_t bufBytes = 0;
    std::vector<Op> list;
    std::vector<size_t> pos; // position before op i; last = end
    Bits bits; // full expected content from 0
};

void expectBuffer(vh::Case& c, const std::vector<uint8_t>& buf, const Bits& want, const char* oracle)
{
    const Bits got = Bits::fromBytes(buf.data(), want.size());
    c.eval();
    if (!(got == want))
    {
        size_t i = 0;
        while (got.v[i] == want.v[i])
        {
            ++i;
        }
        c.fail(oracle, vh::str("first differing bit ", i, " of ", want.size(), " got ", static_cast<int>(got.v[i])));
    }
}

void history(vh::Case& c, bool bigAlign)
{
    auto& r = c.rng;
    const size_t start = r.chance(70) ? r.below(9) : r.below(200);
    const size_t n = 1 + r.below(c.thorough ? 120 : 50);
    std::vector<Op> list;
    for (size_t i = 0; i < n; ++i)
    {
        Op o = randomOp(r, true);
        if (o.kind == F16 && std::isnan(o.d))
        {
            o.d = 1.5;
        }
        if (bigAlign && r.chance(30))
        {
            static const unsigned al[] = {65, 72, 100, 128, 192, 255, 256, 257, 320, 512, 1000, 1024, 4096};
            o.kind = ALIGN;
            o.width = al[r.below(sizeof al / sizeof *al)];
        }
        list.push_back(o);
    }
    // expected
    const std::string noise = r.bytes(start / 8 + 8);
    Bits want = Bits::fromBytes(reinterpret_cast<const uint8_t*>(noise.data()), start);
    std::vector<size_t> pos;
    uint64_t h = start;
    for (const auto& o : list)
    {
        pos.push_back(want.size());
        refWrite(o, want);
        h = vh::mix(h, vh::hashStr(o.text()));
    }
    pos.push_back(want.size());
    const size_t end = want.size();
    const size_t slack = r.below(3);
    const size_t bytes = (end + 7) / 8 + slack;
    std::vector<uint8_t> buf(bytes);
    for (auto& b : buf)
    {
        b = static_cast<uint8_t>(r.next());
    }
    for (size_t i = 0; i < start / 8 + 1 && i < bytes; ++i)
    {
        buf[i] = static_cast<uint8_t>(noise[i]);
    }
    // bits after the end must stay as they are
    const Bits before = Bits::fromBytes(buf.data(), bytes * 8);
    Bits full = want;
    full.v.insert(full.v.end(), before.v.begin() + static_cast<long>(end), before.v.end());

    zserio::BitStreamWriter w(buf.data(), buf.size());
    zserio::BitStreamWriter measure(nullptr, 0);
    w.setBitPosition(start);
    measure.setBitPosition(start);
    for (size_t i = 0; i < n; ++i)
    {
        c.trace(vh::str("w@", pos[i], " ", list[i].text()));
        rtWrite(list[i], w);
        rtWrite(list[i], measure);
        VH_EQ(c, w.getBitPosition(), pos[i + 1], "writer-position", "op ", i);
        VH_EQ(c, measure.getBitPosition(), pos[i + 1], "measuring-writer-position", "op ", i);
        c.count(list[i].kind == ALIGN ? "align" : "write");
        if (pos[i] % 8 != 0)
        {
            c.count("unaligned_write");
        }
    }
    expectBuffer(c, buf, full, "written-bits");

    // sequential read, bits beyond the end hidden by an exact bit size
    zserio::BitStreamReader rd(zserio::Span<const uint8_t>(buf.data(), bytes), r.flip() ? end : bytes * 8);
    rd.setBitPosition(start);
    for (size_t i = 0; i < n; ++i)
    {
        c.trace(vh::str("r@", pos[i]));
        const Val v = rtRead(list[i], rd);
        const Val e = expected(list[i]);
        VH_CHECK(c, v == e, "read-value", list[i].text(), " got ", v.text(), " expected ", e.text());
        VH_EQ(c, rd.getBitPosition(), pos[i + 1], "reader-position", "op ", i, " ", list[i].text());
        c.count("read");
    }

    // random access reads and overwrites
    for (size_t k = 0; k < 2 + n / 2; ++k)
    {
        const size_t i = r.below(n);
        if (r.chance(60))
        {
            c.trace(vh::str("seek-read ", i, "@", pos[i]));
            rd.setBitPosition(pos[i]);
            VH_EQ(c, rd.getBitPosition(), pos[i], "reader-seek", "");
            const size_t len = 1 + r.below(4);
            for (size_t j = i; j < n && j < i + len; ++j)
            {
                const Val v = rtRead(list[j], rd);
                const Val e = expected(list[j]);
                VH_CHECK(c, v == e, "seek-read-value", list[j].text(), " got ", v.text(), " expected ", e.text());
                VH_EQ(c, rd.getBitPosition(), pos[j + 1], "seek-reader-position", "");
            }
            c.count("seek_read");
        }
        else
        {
            // overwrite with another operation of exactly the same size
            Op o = list[i];
            if (o.kind == U32 || o.kind == U64)
            {
                o.value = static_cast<i128>(r.ubits(o.width));
            }
            else if (o.kind == S32 || o.kind == S64)
            {
                o.value = static_cast<i128>(r.sbits(o.width));
            }
            else if (o.kind == BOOL)
            {
                o.value = 1 - o.value;
            }
            else if (o.kind == F64)
            {
                o.d = ref::bitsF64(r.next());
            }
            else if (o.kind == BYTES || o.kind == STRING || o.kind == BITBUF)
            {
                o.blob = r.bytes(o.blob.size());
            }
            c.trace(vh::str("overwrite ", i, "@", pos[i], " ", o.text()));
            w.setBitPosition(pos[i]);
            VH_EQ(c, w.getBitPosition(), pos[i], "writer-seek", "");
            rtWrite(o, w);
            VH_EQ(c, w.getBitPosition(), pos[i + 1], "overwrite-position", "");
            Bits part;
            part.v.assign(full.v.begin(), full.v.begin() + static_cast<long>(pos[i]));
            refWrite(o, part);
            std::copy(part.v.begin(), part.v.end(), full.v.begin());
            list[i] = o;
            expectBuffer(c, buf, full, "overwrite-bits");
            // the reader caches bits: seek again before the next read
            rd.setBitPosition(pos[i]);
            c.count("overwrite");
        }
    }
    c.distinct(h);
    if (c.wantSample())
    {
        c.sample(vh::str("start=", start, " ops=", n, " bits=", end, " first: ", list[0].text(), ", ",
                list[n - 1].text()));
    }
}

} // namespace

VH_SECTION(history, 12000, 150000)
{
    history(c, false);
}

VH_SECTION(align_wide, 1500, 15000)
{
    history(c, true);
}

// every (width, offset) pair for the fixed-width calls, all around the width limits
VH_SECTION(width_offset, 64 * 8, 64 * 8)
{
    auto& r = c.rng;
    const unsigned width = static_cast<unsigned>(c.idx / 8) + 1;
    const unsigned off = static_cast<unsigned>(c.idx % 8);
    const unsigned reps = c.thorough ? 200 : 24;
    for (unsigned rep = 0; rep < reps; ++rep)
    {
        for (int kind : {U32, U64, S32, S64})
        {
            if ((kind == U32 || kind == S32) && width > 32)
            {
                continue;
            }
            Op o;
            o.kind = kind;
            o.width = width;
            const bool sgn = (kind == S32 || kind == S64);
            const i128 hi = sgn ? (i128(1) << (width - 1)) - 1 : (i128(1) << width) - 1;
            const i128 lo = sgn ? -(i128(1) << (width - 1)) : 0;
            switch (rep)
            {
            case 0:
                o.value = hi;
                break;
            case 1:
                o.value = lo;
                break;
            case 2:
                o.value = 0;
                break;
            case 3:
                o.value = sgn ? -1 : 1;
                break;
            default:
                o.value = sgn ? static_cast<i128>(r.sbits(width)) : static_cast<i128>(r.ubits(width));
            }
            uint8_t buf[32];
            const uint8_t fill = (rep % 2 == 0) ? 0xFF : 0x00;
            memset(buf, fill, sizeof buf);
            zserio::BitStreamWriter w(buf, sizeof buf);
            const size_t at = off + 8 * r.below(3) + (r.flip() ? 64 : 0);
            w.setBitPosition(at);
            rtWrite(o, w);
            VH_EQ(c, w.getBitPosition(), at + width, "fixed-position", o.text());
            const Bits got = Bits::fromBytes(buf, 256);
            Bits want;
            want.v.assign(256, fill & 1);
            Bits val;
            ref::putInt(val, o.value, width);
            std::copy(val.v.begin(), val.v.end(), want.v.begin() + static_cast<long>(at));
            VH_CHECK(c, got == want, "fixed-bits", o.text(), " at ", at, " got ", got.text(), " want ", want.text());
            zserio::BitStreamReader rd(buf, sizeof buf);
            if (r.flip())
            {
                rd.setBitPosition(at);
            }
            else
            {
                size_t left = at; // arrive through reads of random widths (cache states)
                while (left > 0)
                {
                    const size_t k = 1 + r.below(left < 64 ? left : 64);
                    (void)rd.readUnsignedBits64(static_cast<uint8_t>(k));
                    left -= k;
                }
            }
            const Val v = rtRead(o, rd);
            VH_CHECK(c, v == expected(o), "fixed-value", o.text(), " at ", at, " got ", v.text());
            c.distinct(vh::hashStr(vh::str(at, o.text())));
        }
    }
    c.count("pairs");
    if (c.wantSample())
    {
        c.sample(vh::str("width=", width, " offset=", off, " reps=", reps));
    }
}

// typed overloads used by generated code
namespace
{

template <typename T>
void typed(vh::Case& c, T value, size_t at, unsigned bits)
{
    uint8_t buf[40];
    for (auto& b : buf)
    {
        b = static_cast<uint8_t>(c.rng.next());
    }
    zserio::BitStreamWriter w(buf, sizeof buf);
    w.setBitPosition(at);
    zserio::detail::write(w, value);
    if (bits != 0)
    {
        VH_EQ(c, w.getBitPosition(), at + bits, "typed-writer-position", "bits ", bits);
    }
    zserio::BitStreamReader rd(buf, sizeof buf);
    rd.setBitPosition(at);
    T back{};
    zserio::detail::read(rd, back);
    VH_CHECK(c, static_cast<typename T::ValueType>(back) == static_cast<typename T::ValueType>(value), "typed-value",
            "bits ", bits, " wrote ", +static_cast<typename T::ValueType>(value), " read ",
            +static_cast<typename T::ValueType>(back));
    VH_EQ(c, rd.getBitPosition(), w.getBitPosition(), "typed-reader-position", "bits ", bits);
    c.count("typed");
}

template <size_t N>
void typedInt(vh::Case& c)
{
    const size_t at = c.rng.below(70);
    using I = zserio::detail::FixedIntWrapper<N, true>;
    using U = zserio::detail::FixedIntWrapper<N, false>;
    typed<I>(c, static_cast<typename I::ValueType>(c.rng.sbits(N)), at, N);
    typed<U>(c, static_cast<typename U::ValueType>(c.rng.ubits(N)), at, N);
}

template <size_t... N>
void typedAll(vh::Case& c, std::index_sequence<N...>)
{
    (typedInt<N + 1>(c), ...);
}

} // namespace

VH_SECTION(typed, 400, 4000)
{
    typedAll(c, std::make_index_sequence<64>());
    auto& r = c.rng;
    const size_t at = r.below(70);
    typed<zserio::Bool>(c, r.flip(), at, 1);
    typed<zserio::VarInt16>(c, static_cast<int16_t>(randomVar(r, Var::I16)), at, 0);
    typed<zserio::VarInt32>(c, static_cast<int32_t>(randomVar(r, Var::I32)), at, 0);
    typed<zserio::VarInt64>(c, static_cast<int64_t>(randomVar(r, Var::I64)), at, 0);
    typed<zserio::VarInt>(c, static_cast<int64_t>(randomVar(r, Var::I)), at, 0);
    typed<zserio::VarUInt16>(c, static_cast<uint16_t>(randomVar(r, Var::U16)), at, 0);
    typed<zserio::VarUInt32>(c, static_cast<uint32_t>(randomVar(r, Var::U32)), at, 0);
    typed<zserio::VarUInt64>(c, static_cast<uint64_t>(randomVar(r, Var::U64)), at, 0);
    typed<zserio::VarUInt>(c, static_cast<uint64_t>(randomVar(r, Var::U)), at, 0);
    typed<zserio::VarSize>(c, static_cast<uint32_t>(randomVar(r, Var::SIZE)), at, 0);
    typed<zserio::Float16>(c, static_cast<float>(ref::halfValue(static_cast<uint16_t>(r.below(0x7c00)))), at, 16);
    const float f = randomF32(r);
    if (!std::isnan(f))
    {
        typed<zserio::Float32>(c, f, at, 32);
        typed<zserio::Float64>(c, static_cast<double>(f) * 1.000000001, at, 64);
    }
    if (c.wantSample())
    {
        c.sample(vh::str("all fixed widths 1..64 signed+unsigned, varints, floats through the typed overloads"));
    }
    c.distinct(c.idx);
}

// all varints near every length boundary at every offset
VH_SECTION(var_boundaries, 9 * 8, 9 * 8)
{
    const Var k = static_cast<Var>(c.idx / 8);
    const size_t off = c.idx % 8;
    for (unsigned nb = 1; nb <= ref::varMaxBytes(k); ++nb)
    {
        for (int delta = -3; delta <= 3; ++delta)
        {
            for (int sgn = 0; sgn < 2; ++sgn)
            {
                Op o;
                o.kind = VAR;
                o.var = k;
                o.value = (i128(1) << ref::varCapacity(k, nb)) + delta;
                if (sgn != 0)
                {
                    o.value = -o.value;
                }
                if (!ref::varFits(k, o.value))
                {
                    continue;
                }
                uint8_t buf[16] = {};
                zserio::BitStreamWriter w(buf, sizeof buf);
                w.setBitPosition(off);
                rtWrite(o, w);
                VH_EQ(c, w.getBitPosition(), off + 8 * ref::varBytes(k, o.value), "var-position", o.text());
                zserio::BitStreamReader rd(buf, sizeof buf);
                rd.setBitPosition(off);
                const Val v = rtRead(o, rd);
                VH_CHECK(c, v == expected(o), "var-value", o.text(), " got ", v.text());
                VH_EQ(c, rd.getBitPosition(), w.getBitPosition(), "var-reader-position", o.text());
                c.distinct(vh::hashStr(vh::str(off, o.text())));
                c.count("values");
            }
        }
    }
}
