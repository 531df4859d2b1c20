// C22: bit buffers against explicit bit strings
#include <utility>

#include "life.h"
#include "ref.h"
#include "zserio/BitBuffer.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/String.h"

using namespace life;
using ref::Bits;

namespace
{

using StdA = std::allocator<uint8_t>;
using PmrA = std::pmr::polymorphic_allocator<uint8_t>;
using PpmrA = zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>;

constexpr size_t NONE = ~size_t(0);

struct Model
{
    Bits bits;
    int alloc = 0;
    bool unknown = false; // moved from by a move which copies
};

int compareBits(const Bits& a, const Bits& b)
{
    for (size_t i = 0; i < a.size() && i < b.size(); ++i)
    {
        if (a.v[i] != b.v[i])
        {
            return a.v[i] < b.v[i] ? -1 : 1;
        }
    }
    return a.size() == b.size() ? 0 : (a.size() < b.size() ? -1 : 1);
}

uint32_t refHash(const Bits& b)
{
    uint32_t h = 23;
    for (const uint8_t x : b.toBytes())
    {
        h = 37 * h + x;
    }
    return h;
}

size_t randomBitSize(vh::Rng& r)
{
    switch (r.below(6))
    {
    case 0:
        return r.below(3);
    case 1:
        return 8 * r.below(6);
    case 2:
        return 8 * r.below(6) + 7;
    case 3:
        return r.below(2000);
    default:
        return r.below(40);
    }
}

// bytes with random bits behind the wanted ones, some buffers are longer than needed
std::vector<uint8_t> randomBytes(vh::Rng& r, size_t bitSize, const Bits* want = nullptr)
{
    std::vector<uint8_t> v((bitSize + 7) / 8 + (r.chance(30) ? r.below(4) : 0));
    const bool plain = r.chance(20);
    for (auto& b : v)
    {
        b = plain ? 0 : static_cast<uint8_t>(r.next());
    }
    for (size_t i = 0; want != nullptr && i < bitSize; ++i)
    {
        const auto m = static_cast<uint8_t>(0x80U >> (i % 8));
        v[i / 8] = static_cast<uint8_t>((v[i / 8] & ~m) | (want->v[i] != 0 ? m : 0));
    }
    return v;
}

template <typename A>
struct Runner
{
    using Buf = zserio::BasicBitBuffer<A>;
    using View = zserio::BasicBitBufferView<A>;
    using K = Kit<A>;
    static constexpr size_t N = 4;

    vh::Case& c;
    Resources& res;
    std::vector<std::unique_ptr<Buf>> o;
    Model m[N];

    void verify(size_t i, const char* op)
    {
        const Buf& b = *o[i];
        Buf& mb = *o[i];
        Model& want = m[i];
        if (want.unknown)
        {
            // valid but unspecified: whatever it holds must be consistent
            want.bits = Bits::fromBytes(b.getBuffer(), b.getBitSize());
            want.unknown = false;
        }
        const size_t n = want.bits.size();
        VH_EQ(c, b.getBitSize(), n, std::string("bit-size:") + op, "");
        VH_EQ(c, b.getByteSize(), (n + 7) / 8, std::string("byte-size:") + op, "");
        VH_CHECK(c, b.getBytes().size() >= b.getByteSize(), "bytes-too-short", op, " ", b.getBytes().size(), " of ", b.getByteSize());
        VH_CHECK(c, b.getData().size() >= b.getByteSize() && mb.getData().size() == b.getData().size(), "data-too-short", op);
        c.check(b.getBytes().data() == b.getBuffer() && b.getData().data() == b.getBuffer() && mb.getBuffer() == b.getBuffer() &&
                        mb.getData().data() == b.getBuffer(),
                "views-of-other-memory", op);
        const Bits got = Bits::fromBytes(b.getBytes().data(), n);
        VH_CHECK(c, got == want.bits, std::string("bits:") + op, K::name, " got ", got.text(), " expected ", want.bits.text());
        const uint32_t h = refHash(want.bits);
        VH_EQ(c, b.hashCode(), h, "hash", op);
        VH_EQ(c, std::hash<Buf>()(b), size_t(h), "std-hash", op);
        VH_EQ(c, std::hash<View>()(View(b)), size_t(h), "view-hash", op);
        VH_EQ(c, K::id(res, b.get_allocator()), want.alloc, std::string("allocator:") + op, K::name);
        VH_CHECK(c, st().error.empty(), std::string("memory:") + op, st().error);
    }

    void compare(const Buf& a, const Bits& ma, const Buf& b, const Bits& mb)
    {
        const int want = compareBits(ma, mb);
        const View va(a);
        const View vb(b);
        const auto all = [&](const char* what, bool eq, bool ne, bool lt, bool gt, bool le, bool ge) {
            VH_CHECK(c, eq == (want == 0) && ne == (want != 0) && lt == (want < 0) && gt == (want > 0) && le == (want <= 0) && ge == (want >= 0),
                    what, ma.text(), " / ", mb.text(), " (", ma.size(), "/", mb.size(), " bits): ", eq, ne, lt, gt, le, ge);
        };
        all("compare", a == b, a != b, a < b, a > b, a <= b, a >= b);
        all("compare-views", va == vb, va != vb, va < vb, va > vb, va <= vb, va >= vb);
        c.count(want == 0 ? "equal_pairs" : "different_pairs");
    }

    void set(size_t i, std::unique_ptr<Buf> n, Bits bits, int alloc)
    {
        o[i] = std::move(n);
        m[i].bits = std::move(bits);
        m[i].alloc = alloc;
        m[i].unknown = false;
    }

    void run()
    {
        auto& r = c.rng;
        for (size_t i = 0; i < N; ++i)
        {
            const int a = K::norm(static_cast<int>(r.below(2)));
            o.push_back(std::make_unique<Buf>(K::make(res, a)));
            m[i].alloc = a;
        }
        const size_t steps = 10 + r.below(30);
        uint64_t h = 0;
        for (size_t s = 0; s < steps; ++s)
        {
            const unsigned op = static_cast<unsigned>(r.below(19));
            const size_t i = r.below(N);
            const size_t j = r.below(N);
            c.trace(vh::str("op", op, "(", i, ",", j, ")"));
            step(op, i, j);
            h = vh::mix(h, op * 64 + i * 8 + j + 1000 * m[i].bits.size());
            for (size_t x = 0; x < N; ++x)
            {
                verify(x, vh::str("op", op).c_str());
            }
            compare(*o[i], m[i].bits, *o[j], m[j].bits);
        }
        c.distinct(vh::mix(h, static_cast<uint64_t>(K::name[1])));
        o.clear();
        VH_CHECK(c, st().error.empty(), "memory:end", st().error);
    }

    void step(unsigned op, size_t i, size_t j)
    {
        auto& r = c.rng;
        const int a = K::norm(static_cast<int>(r.below(2)));
        const A alloc = K::make(res, a);
        const size_t bitSize = randomBitSize(r);
        const bool same = i == j;
        switch (op)
        {
        case 0:
            set(i, std::make_unique<Buf>(alloc), Bits(), a);
            break;
        case 1:
        {
            Bits z;
            z.v.resize(bitSize);
            set(i, std::make_unique<Buf>(bitSize, alloc), z, a);
            c.count("zeroed");
            break;
        }
        case 2:
        {
            const auto v = randomBytes(r, bitSize);
            set(i, std::make_unique<Buf>(zserio::Span<const uint8_t>(v), alloc), Bits::fromBytes(v.data(), 8 * v.size()), a);
            break;
        }
        case 3:
        case 4:
        {
            const auto v = randomBytes(r, bitSize);
            set(i, std::make_unique<Buf>(zserio::Span<const uint8_t>(v), bitSize, alloc), Bits::fromBytes(v.data(), bitSize), a);
            break;
        }
        case 5:
        case 6:
        {
            const auto v = randomBytes(r, bitSize);
            std::vector<uint8_t, A> moved(v.begin(), v.end(), alloc);
            const uint8_t* p = moved.data();
            const bool whole = op == 5;
            set(i, whole ? std::make_unique<Buf>(std::move(moved)) : std::make_unique<Buf>(std::move(moved), bitSize),
                    Bits::fromBytes(v.data(), whole ? 8 * v.size() : bitSize), a);
            c.check(o[i]->getBuffer() == p, "moved-vector-copied", "");
            break;
        }
        case 7:
            set(i, std::make_unique<Buf>(std::as_const(*o[j])), m[j].bits, K::copyCtor(m[j].alloc));
            break;
        case 8:
            set(i, std::make_unique<Buf>(std::as_const(*o[j]), alloc), m[j].bits, a);
            break;
        case 9:
        case 10:
        {
            const Bits bits = m[j].bits;
            const int al = m[j].alloc;
            auto n = op == 9 ? std::make_unique<Buf>(std::move(*o[j])) : std::make_unique<Buf>(std::move(*o[j]), alloc);
            m[j].unknown = true;
            verify(j, "moved-from");
            compare(*n, bits, *o[j], m[j].bits);
            set(i, std::move(n), bits, op == 9 ? al : a);
            c.count("moves");
            break;
        }
        case 11:
        case 12:
            *o[i] = std::as_const(*o[j]);
            if (!same)
            {
                m[i].bits = m[j].bits;
                m[i].alloc = K::assign(m[i].alloc, m[j].alloc);
            }
            c.count(same ? "self_assign" : "assign");
            break;
        case 13:
        case 14:
            *o[i] = std::move(*o[j]);
            if (same)
            {
                m[i].unknown = true;
            }
            else
            {
                m[i].bits = m[j].bits;
                m[i].alloc = K::assign(m[i].alloc, m[j].alloc);
                m[j].unknown = true;
            }
            c.count("moves");
            break;
        case 15: // write through the mutable accessors, also the bits which do not count
        {
            Buf& b = *o[i];
            const size_t bytes = b.getByteSize();
            const bool span = r.flip();
            for (size_t k = 0; k < 4 && bytes > 0; ++k)
            {
                const size_t at = r.chance(40) ? bytes - 1 : r.below(bytes);
                const auto v = static_cast<uint8_t>(r.next());
                if (span)
                {
                    b.getData()[at] = v;
                }
                else
                {
                    b.getBuffer()[at] = v;
                }
                for (size_t q = 0; q < 8 && 8 * at + q < m[i].bits.size(); ++q)
                {
                    m[i].bits.v[8 * at + q] = static_cast<uint8_t>((v >> (7 - q)) & 1);
                }
            }
            c.count("in_place_writes");
            break;
        }
        case 16: // the same bits with other unused bits, and neighbours
        {
            const auto v = randomBytes(r, m[j].bits.size(), &m[j].bits);
            auto twin = std::make_unique<Buf>(zserio::Span<const uint8_t>(v), m[j].bits.size(), alloc);
            compare(*twin, m[j].bits, *o[j], m[j].bits);
            Bits near = m[j].bits;
            switch (r.below(3))
            {
            case 0:
                near.v.push_back(static_cast<uint8_t>(r.below(2)));
                break;
            case 1:
                if (near.size() > 0)
                {
                    near.v.pop_back();
                }
                break;
            default:
                if (near.size() > 0)
                {
                    near.v[r.chance(50) ? near.size() - 1 : r.below(near.size())] ^= 1;
                }
                break;
            }
            const auto nv = randomBytes(r, near.size(), &near);
            auto other = std::make_unique<Buf>(zserio::Span<const uint8_t>(nv), near.size(), alloc);
            compare(*other, near, *o[j], m[j].bits);
            compare(*o[j], m[j].bits, *other, near);
            set(i, std::move(other), near, a);
            c.count("neighbours");
            break;
        }
        case 17: // refused sizes
        {
            const auto v = randomBytes(r, bitSize);
            const size_t limit = 8 * v.size();
            size_t bad = 0;
            switch (r.below(5))
            {
            case 0:
                bad = limit + 1;
                break;
            case 1:
                bad = limit + 1 + r.below(20);
                break;
            case 2:
                bad = NONE - r.below(20);
                break;
            case 3:
                bad = (size_t(1) << r.range(32, 63)) + limit + r.below(3);
                break;
            default:
                bad = limit + 1 + r.ubits(62);
                break;
            }
            unsigned refused = 0;
            try
            {
                const Buf b(zserio::Span<const uint8_t>(v), bad, alloc);
            }
            catch (const zserio::CppRuntimeException&)
            {
                ++refused;
            }
            try
            {
                std::vector<uint8_t, A> mv(v.begin(), v.end(), alloc);
                const Buf b(std::move(mv), bad);
            }
            catch (const zserio::CppRuntimeException&)
            {
                ++refused;
            }
            VH_EQ(c, refused, 2U, "size-accepted", "bit size ", bad, " of ", limit);
            // the largest valid one
            const Buf b(zserio::Span<const uint8_t>(v), limit, alloc);
            VH_EQ(c, b.getBitSize(), limit, "limit", "");
            c.count("refused", 2);
            break;
        }
        default: // written and read back
        {
            const Bits& bits = m[j].bits;
            std::vector<uint8_t> mem(bits.size() / 8 + 16);
            zserio::BitStreamWriter w(mem.data(), mem.size());
            const unsigned start = static_cast<unsigned>(r.below(9));
            w.writeUnsignedBits32(0, 1);
            for (unsigned q = 1; q < start; ++q)
            {
                w.writeBool(false);
            }
            const size_t begin = w.getBitPosition();
            w.writeBitBuffer(*o[j]);
            Bits want;
            want.v.resize(begin);
            ref::putBitBuffer(want, bits);
            VH_EQ(c, w.getBitPosition(), want.size(), "written-size", "");
            const Bits got = Bits::fromBytes(mem.data(), want.size());
            VH_CHECK(c, got == want, "written-bits", got.text(), " expected ", want.text());
            zserio::BitStreamReader rd(zserio::Span<const uint8_t>(mem.data(), mem.size()));
            rd.setBitPosition(begin);
            set(i, std::make_unique<Buf>(rd.readBitBuffer(alloc)), Bits(bits), a);
            // a reader on the buffer ends with its bits
            zserio::BitStreamReader whole(zserio::Span<const uint8_t>(o[j]->getBuffer(), o[j]->getByteSize()), m[j].bits.size());
            VH_EQ(c, whole.getBufferBitSize(), m[j].bits.size(), "reader-size", "");
            zserio::CppRuntimeException e;
            e << *o[j];
            VH_EQ(c, std::string(e.what()), vh::str("BitBuffer([...], ", m[j].bits.size(), ")"), "text", "");
            c.count("serialized");
            break;
        }
        }
    }
};

template <typename A>
void history(vh::Case& c)
{
    c.trace(Kit<A>::name);
    Resources res;
    {
        Runner<A> r{c, res, {}, {}};
        r.run();
    }
    VH_CHECK(c, st().error.empty(), "memory:end", st().error);
    VH_EQ(c, res.r0.live() + res.r1.live() + res.def.live(), size_t(0), "blocks-at-end", "");
    if (c.wantSample())
    {
        c.sample(c.traceText().substr(0, 300));
    }
}

} // namespace

VH_SECTION(histories, 3 * 2000, 3 * 150000)
{
    switch (c.idx % 3)
    {
    case 0:
        return history<StdA>(c);
    case 1:
        return history<PmrA>(c);
    default:
        return history<PpmrA>(c);
    }
}

// all pairs of short buffers
VH_SECTION(short_pairs, 20, 20)
{
    // idx selects the first buffer's size group; buffers of 0..9 bits over a reduced alphabet
    std::vector<Bits> all;
    for (unsigned n = 0; n <= 10; ++n)
    {
        for (unsigned v = 0; v < (1U << n); ++v)
        {
            if (n > 5 && (v % 3 != 0) && (v & (v + 1)) != 0 && (v & (v - 1)) != 0)
            {
                continue;
            }
            Bits b;
            b.put(v, n);
            all.push_back(b);
        }
    }
    auto& r = c.rng;
    std::vector<zserio::BitBuffer> bufs;
    for (const Bits& b : all)
    {
        const auto v = randomBytes(r, b.size(), &b);
        bufs.emplace_back(zserio::Span<const uint8_t>(v), b.size());
    }
    for (size_t i = c.idx; i < all.size(); i += 20)
    {
        for (size_t j = 0; j < all.size(); ++j)
        {
            const int want = compareBits(all[i], all[j]);
            VH_CHECK(c, (bufs[i] == bufs[j]) == (want == 0) && (bufs[i] < bufs[j]) == (want < 0) && (bufs[i] > bufs[j]) == (want > 0), "pair",
                    all[i].text(), " (", all[i].size(), ") / ", all[j].text(), " (", all[j].size(), ")");
            VH_CHECK(c, want != 0 || bufs[i].hashCode() == bufs[j].hashCode(), "pair-hash", all[i].text());
        }
        c.count("rows");
        c.distinct(vh::hashStr(all[i].text()) + all[i].size());
    }
}

// above 2 GiB: sizes and hashing do not overflow (thorough only, needs 2 GiB)
VH_SECTION_NOLEAK(huge, 0, 1)
{
    constexpr size_t BYTES = (size_t(1) << 31) + 3;
    zserio::BitBuffer b(8 * BYTES - 3);
    VH_EQ(c, b.getByteSize(), BYTES, "huge-bytes", "");
    b.getBuffer()[BYTES - 1] = 0xFF;
    b.getBuffer()[0] = 1;
    // 37^(BYTES-1) * (37 * 23 + 1) + 0xF8, all other bytes are zero
    uint32_t p = 1;
    uint32_t base = 37;
    for (size_t e = BYTES - 1; e != 0; e >>= 1)
    {
        if ((e & 1) != 0)
        {
            p *= base;
        }
        base *= base;
    }
    const uint32_t want = p * (37U * 23U + 1U) + 0xF8;
    VH_EQ(c, b.hashCode(), want, "huge-hash", "");
    c.distinct(BYTES);
}
