// C02: encoded bytes conform to the wire format (independent reference encoder and decoder)
#include <utility>

#include "ops.h"
#include "zserio/Types.h"
#include "zserio/View.h"

using namespace ops;

namespace
{

void placeRandom(vh::Rng& r, std::vector<uint8_t>& buf)
{
    for (auto& b : buf)
    {
        b = static_cast<uint8_t>(r.next());
    }
}

// write through the runtime at `at`, compare all bits of the buffer
void checkEncode(vh::Case& c, const Op& o, size_t at)
{
    Bits val;
    refWrite(o, val);
    std::vector<uint8_t> buf((at + val.size() + 7) / 8 + c.rng.below(9));
    if (buf.empty())
    {
        buf.resize(1);
    }
    placeRandom(c.rng, buf);
    Bits want = Bits::fromBytes(buf.data(), buf.size() * 8);
    std::copy(val.v.begin(), val.v.end(), want.v.begin() + static_cast<long>(at));
    c.trace(vh::str("@", at, " ", o.text()));
    zserio::BitStreamWriter w(buf.data(), buf.size());
    w.setBitPosition(at);
    rtWrite(o, w);
    VH_EQ(c, w.getBitPosition(), at + val.size(), "encoded-length", o.text());
    const Bits got = Bits::fromBytes(buf.data(), buf.size() * 8);
    if (!(got == want))
    {
        size_t i = 0;
        while (got.v[i] == want.v[i])
        {
            ++i;
        }
        c.fail("encoded-bits", vh::str(o.text(), " at ", at, ": bit ", i, " differs"));
    }
    c.eval();
}

// place the reference encoding at `at` and decode through the runtime
void checkDecode(vh::Case& c, const Op& o, const Bits& val, const Val& expect, size_t at)
{
    const size_t tail = c.rng.below(80);
    std::vector<uint8_t> buf((at + val.size() + tail + 7) / 8);
    placeRandom(c.rng, buf);
    Bits all = Bits::fromBytes(buf.data(), buf.size() * 8);
    std::copy(val.v.begin(), val.v.end(), all.v.begin() + static_cast<long>(at));
    buf = all.toBytes();
    c.trace(vh::str("decode @", at, " ", o.text(), " bits ", val.text(80)));
    zserio::BitStreamReader rd(zserio::Span<const uint8_t>(buf.data(), buf.size()),
            c.rng.flip() ? at + val.size() : buf.size() * 8);
    if (c.rng.flip())
    {
        rd.setBitPosition(at);
    }
    else
    {
        size_t left = at;
        while (left > 0)
        {
            const size_t k = 1 + c.rng.below(left < 64 ? left : 64);
            (void)rd.readUnsignedBits64(static_cast<uint8_t>(k));
            left -= k;
        }
    }
    const Val v = rtRead(o, rd);
    VH_CHECK(c, v == expect, "decoded-value", o.text(), " at ", at, " got ", v.text(), " expected ", expect.text());
    VH_EQ(c, rd.getBitPosition(), at + val.size(), "decoded-length", o.text());
}

size_t randomAt(vh::Rng& r)
{
    return r.chance(60) ? r.below(16) : r.below(200);
}

void avoidHalfNan(Op& o)
{
    if (o.kind == F16 && std::isnan(o.d))
    {
        o.d = -2.25;
    }
}

} // namespace

VH_SECTION(random_values, 60000, 900000)
{
    Op o = randomOp(c.rng, false, 4000);
    avoidHalfNan(o);
    const size_t at = randomAt(c.rng);
    checkEncode(c, o, at);
    Bits val;
    refWrite(o, val);
    checkDecode(c, o, val, expected(o), randomAt(c.rng));
    c.count("values");
    c.distinct(vh::hashStr(vh::str(at, o.text())));
    if (c.wantSample())
    {
        c.sample(vh::str(o.text(), " at ", at, " -> ", val.text(64)));
    }
}

// exhaustive 16-bit spaces
VH_SECTION(exhaustive16, 256, 256)
{
    for (unsigned lowByte = 0; lowByte < 256; ++lowByte)
    {
        const auto u = static_cast<uint16_t>(c.idx * 256 + lowByte);
        Op o;
        const size_t at = lowByte % 9;
        o.kind = VAR;
        o.var = Var::I16;
        o.value = static_cast<int16_t>(u);
        Bits val;
        if (ref::varFits(o.var, o.value))
        {
            checkEncode(c, o, at);
            refWrite(o, val);
            checkDecode(c, o, val, expected(o), at);
        }
        o.var = Var::U16;
        o.value = u;
        if (ref::varFits(o.var, o.value))
        {
            checkEncode(c, o, at);
            val = Bits();
            refWrite(o, val);
            checkDecode(c, o, val, expected(o), at);
        }
        // every half pattern decodes to its value and the value encodes to the pattern
        o = Op();
        o.kind = F16;
        o.d = ref::halfValue(u);
        val = Bits();
        val.put(u, 16);
        Val e;
        e.f = canon64(o.d);
        checkDecode(c, o, val, e, at);
        if (!std::isnan(o.d))
        {
            checkEncode(c, o, at);
        }
        for (int k : {U32, S32, U64, S64})
        {
            o = Op();
            o.kind = k;
            o.width = 16;
            o.value = (k == U32 || k == U64) ? static_cast<i128>(u) : static_cast<i128>(static_cast<int16_t>(u));
            checkEncode(c, o, at);
            val = Bits();
            refWrite(o, val);
            checkDecode(c, o, val, expected(o), at);
        }
        c.distinct(u);
        c.clearTrace();
    }
    c.count("blocks");
    if (c.wantSample())
    {
        c.sample(vh::str("varint16/varuint16/float16/16-bit fields with high byte ", c.idx, " and all low bytes"));
    }
}

// longer-than-shortest varint encodings are well formed and decode to the value they denote
VH_SECTION(long_varints, 6000, 60000)
{
    auto& r = c.rng;
    Op o;
    o.kind = VAR;
    o.var = static_cast<Var>(r.below(9));
    const unsigned maxB = ref::varMaxBytes(o.var);
    const unsigned nb = 1 + static_cast<unsigned>(r.below(maxB));
    const unsigned cap = ref::varCapacity(o.var, nb);
    i128 v = static_cast<i128>(r.ubits(cap > 64 ? 64 : cap));
    if (o.var == Var::SIZE && v > ref::varMax(o.var))
    {
        v &= 0x7fffffff;
    }
    if (ref::varSigned(o.var) && r.flip())
    {
        v = -v;
    }
    o.value = v;
    Bits val;
    ref::putVar(val, o.var, v, nb);
    checkDecode(c, o, val, expected(o), randomAt(r));
    c.count("encodings");
    c.distinct(vh::hashStr(vh::str(nb, o.text())));
    if (c.wantSample())
    {
        c.sample(vh::str(o.text(), " in ", nb, " bytes: ", val.text()));
    }
}

// length prefix boundaries of bytes, strings and bit buffers
VH_SECTION(length_prefix, 3 * 10, 3 * 40)
{
    auto& r = c.rng;
    static const size_t lens[] = {0, 1, 126, 127, 128, 129, 16382, 16383, 16384, 16385};
    Op o;
    o.kind = BYTES + static_cast<int>(c.idx % 3);
    size_t len = lens[(c.idx / 3) % 10];
    if (o.kind == BITBUF)
    {
        o.bitSize = len;
        o.blob = r.bytes((len + 7) / 8);
    }
    else
    {
        o.blob = r.bytes(len);
    }
    for (size_t at : {size_t(0), size_t(1), size_t(7), size_t(8)})
    {
        checkEncode(c, o, at);
        Bits val;
        refWrite(o, val);
        checkDecode(c, o, val, expected(o), at);
    }
    c.count("prefixes");
    c.distinct(vh::hashStr(vh::str(o.kind, len)));
    if (c.wantSample())
    {
        c.sample(o.text());
    }
}

// constants taken from the specification, independent of the reference encoder as well
VH_SECTION(golden, 1, 1)
{
    struct G
    {
        int kind;
        Var var;
        unsigned width;
        i128 value;
        double d;
        const char* blob;
        const char* hex;
    };
    static const G g[] = {
            {U32, Var::I, 12, 0xabc, 0, "", "abc0"},
            {S32, Var::I, 5, -1, 0, "", "f8"},
            {S64, Var::I, 64, -2, 0, "", "fffffffffffffffe"},
            {U64, Var::I, 33, (i128(1) << 32), 0, "", "8000000000"},
            {BOOL, Var::I, 0, 1, 0, "", "80"},
            {VAR, Var::I16, 0, 63, 0, "", "3f"},
            {VAR, Var::I16, 0, 64, 0, "", "4040"},
            {VAR, Var::I16, 0, -64, 0, "", "c040"},
            {VAR, Var::I16, 0, 16383, 0, "", "7fff"},
            {VAR, Var::U16, 0, 127, 0, "", "7f"},
            {VAR, Var::U16, 0, 128, 0, "", "8080"},
            {VAR, Var::U32, 0, 0x1fffffff, 0, "", "ffffffff"},
            {VAR, Var::I32, 0, -1, 0, "", "81"},
            {VAR, Var::I32, 0, 8192, 0, "", "40c000"},
            {VAR, Var::U64, 0, (i128(1) << 57) - 1, 0, "", "ffffffffffffffff"},
            {VAR, Var::U, 0, (i128(1) << 64) - 1, 0, "", "ffffffffffffffffff"},
            {VAR, Var::I, 0, -(i128(1) << 63), 0, "", "80"},
            {VAR, Var::I, 0, (i128(1) << 63) - 1, 0, "", "7fffffffffffffffff"},
            {VAR, Var::SIZE, 0, 128, 0, "", "8100"},
            {VAR, Var::SIZE, 0, 0x7fffffff, 0, "", "83ffffffff"},
            {F16, Var::I, 0, 0, 1.0, "", "3c00"},
            {F16, Var::I, 0, 0, -2.0, "", "c000"},
            {F32, Var::I, 0, 0, 3.5, "", "40600000"},
            {F64, Var::I, 0, 0, -1.0, "", "bff0000000000000"},
            {STRING, Var::I, 0, 0, 0, "Hi", "024869"},
            {BYTES, Var::I, 0, 0, 0, "\xff", "01ff"},
    };
    for (const auto& e : g)
    {
        Op o;
        o.kind = e.kind;
        o.var = e.var;
        o.width = e.width;
        o.value = e.value;
        o.d = e.d;
        o.blob = e.blob;
        uint8_t buf[16] = {};
        zserio::BitStreamWriter w(buf, sizeof buf);
        rtWrite(o, w);
        const std::string got = vh::hex(buf, (w.getBitPosition() + 7) / 8);
        VH_EQ(c, got, std::string(e.hex), "golden-bytes", o.text());
        zserio::BitStreamReader rd(buf, sizeof buf);
        const Val v = rtRead(o, rd);
        VH_CHECK(c, v == expected(o), "golden-value", o.text(), " ", v.text());
        c.distinct(vh::hashStr(e.hex));
    }
    c.sample("hand-derived vectors: varint16 64 -> 4040, varsize 128 -> 8100, float16 1.0 -> 3c00, ...");
}

namespace
{

template <typename T>
void typedEnc(vh::Case& c, T value, const Op& o)
{
    Bits val;
    refWrite(o, val);
    const size_t at = c.rng.below(20);
    std::vector<uint8_t> buf((at + val.size() + 7) / 8);
    zserio::BitStreamWriter w(buf.data(), buf.size());
    w.setBitPosition(at);
    zserio::detail::write(w, value);
    Bits want;
    want.v.assign(at, 0);
    want.append(val);
    const Bits got = Bits::fromBytes(buf.data(), want.size());
    VH_CHECK(c, w.getBitPosition() == want.size() && got == want, "typed-encoded-bits", o.text(), " got ", got.text(),
            " want ", want.text());
    zserio::BitStreamReader rd(buf.data(), buf.size());
    rd.setBitPosition(at);
    T back{};
    zserio::detail::read(rd, back);
    VH_CHECK(c, static_cast<typename T::ValueType>(back) == static_cast<typename T::ValueType>(value),
            "typed-decoded-value", o.text());
    c.count("typed");
}

template <size_t N>
void typedOne(vh::Case& c)
{
    using I = zserio::detail::FixedIntWrapper<N, true>;
    using U = zserio::detail::FixedIntWrapper<N, false>;
    Op o;
    o.kind = S64;
    o.width = N;
    o.value = static_cast<i128>(c.rng.sbits(N));
    typedEnc<I>(c, static_cast<typename I::ValueType>(o.value), o);
    o.kind = U64;
    o.value = static_cast<i128>(c.rng.ubits(N));
    typedEnc<U>(c, static_cast<typename U::ValueType>(o.value), o);
    c.distinct(vh::hashStr(o.text()));
}

template <size_t... N>
void typedAll(vh::Case& c, std::index_sequence<N...>)
{
    (typedOne<N + 1>(c), ...);
}

template <typename T>
void dynOne(vh::Case& c, unsigned n)
{
    Op o;
    constexpr bool sgn = std::is_signed_v<typename T::ValueType>;
    o.kind = sgn ? S64 : U64;
    o.width = n;
    o.value = sgn ? static_cast<i128>(c.rng.sbits(n)) : static_cast<i128>(c.rng.ubits(n));
    const T value = static_cast<typename T::ValueType>(o.value);
    Bits val;
    refWrite(o, val);
    const size_t at = c.rng.below(20);
    std::vector<uint8_t> buf((at + val.size() + 7) / 8);
    zserio::BitStreamWriter w(buf.data(), buf.size());
    w.setBitPosition(at);
    zserio::detail::write(w, zserio::View<T>(value, static_cast<uint8_t>(n)));
    Bits want;
    want.v.assign(at, 0);
    want.append(val);
    const Bits got = Bits::fromBytes(buf.data(), want.size());
    VH_CHECK(c, w.getBitPosition() == want.size() && got == want, "dynamic-encoded-bits", o.text(), " got ",
            got.text(), " want ", want.text());
    zserio::BitStreamReader rd(buf.data(), buf.size());
    rd.setBitPosition(at);
    T back{};
    zserio::detail::read(rd, back, static_cast<uint8_t>(n));
    VH_CHECK(c, static_cast<typename T::ValueType>(back) == static_cast<typename T::ValueType>(value),
            "dynamic-decoded-value", o.text());
    c.count("dynamic");
}

} // namespace

VH_SECTION(typed, 300, 3000)
{
    typedAll(c, std::make_index_sequence<64>());
    for (unsigned n = 1; n <= 64; ++n)
    {
        if (n <= 8)
        {
            dynOne<zserio::DynInt8>(c, n);
            dynOne<zserio::DynUInt8>(c, n);
        }
        if (n <= 16)
        {
            dynOne<zserio::DynInt16>(c, n);
            dynOne<zserio::DynUInt16>(c, n);
        }
        if (n <= 32)
        {
            dynOne<zserio::DynInt32>(c, n);
            dynOne<zserio::DynUInt32>(c, n);
        }
        dynOne<zserio::DynInt64>(c, n);
        dynOne<zserio::DynUInt64>(c, n);
    }
    if (c.wantSample())
    {
        c.sample("all fixed and dynamic integer widths through the typed overloads");
    }
}
