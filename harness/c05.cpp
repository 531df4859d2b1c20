#include "c05.h"
#include "objs.h"
#include "tobj_ppmr.h"
#include "tobj_std.h"
#include "zserio/DataView.h"
#include "zserio/SerializeUtil.h"

std::vector<std::pair<std::string, arr::Body>>& arr::bodies()
{
    static auto* b = new std::vector<std::pair<std::string, arr::Body>>;
    return *b;
}

VH_SECTION(arrays, 64 * 60, 64 * 2000)
{
    auto& b = arr::bodies();
    b[c.idx % b.size()].second(c);
}

// generated objects: every start bit position, serialisation leaves no trailing bytes
template <typename T, typename Build>
static void objectBody(vh::Case& c, const tobj::Node& n, T& obj, Build&& build)
{
    build(n, obj);
    ref::Bits want;
    tobj::encode(n, want);
    const zserio::View<T> view(obj);
    const std::string what = n.type;
    c.trace(n.text());
    for (size_t p = 0; p < 10; ++p)
    {
        const size_t pos = p == 9 ? c.rng.below(100000) : (p == 8 ? 8 + c.rng.below(60) : p);
        const auto at = static_cast<zserio::BitSize>(pos);
        const size_t size = zserio::detail::bitSizeOf(view, at);
        VH_EQ(c, size, want.size(), "object-size", what, " at ", pos);
        VH_EQ(c, static_cast<size_t>(zserio::detail::initializeOffsets(view, at)), want.size(), "object-offsets-end", what);
        arr::checkWritten(c, pos, size, what, [&](zserio::BitStreamWriter& w) { zserio::detail::write(w, view); });
        c.count("objects");
    }
    const auto buf = zserio::serialize(view);
    VH_EQ(c, buf.getBitSize(), want.size(), "serialized-bit-size", what);
    VH_EQ(c, buf.getByteSize(), (want.size() + 7) / 8, "serialized-byte-size", what);
    const auto bytes = zserio::serializeToBytes(view);
    const auto wantBytes = want.toBytes();
    c.check(bytes.size() == wantBytes.size() && std::equal(bytes.begin(), bytes.end(), wantBytes.begin()),
            "serialized-bytes", vh::str(what, " ", bytes.size(), " vs ", wantBytes.size()));
    c.distinct(n.hash());
    if (c.wantSample())
    {
        c.sample(n.text(300));
    }
}

VH_SECTION(generated_objects, 2000, 60000)
{
    tobj::Gen g(c.rng, tobj::Gen::ANY, 5, 20);
    tobj::std_allocator::withType(c.idx, [&](auto* t, auto gen) {
        using T = std::remove_pointer_t<decltype(t)>;
        T obj;
        objectBody(c, gen(g), obj, [](const tobj::Node& n, T& o) { tobj::std_allocator::build(n, o); });
    });
    tobj::ppmr_allocator::withType(c.rng.next(), [&](auto* t, auto gen) {
        using T = std::remove_pointer_t<decltype(t)>;
        T obj;
        objectBody(c, gen(g), obj, [](const tobj::Node& n, T& o) { tobj::ppmr_allocator::build(n, o); });
    });
}

// offsets are initialised by serialisation whatever they held before, and the result is independent of the stale value
VH_SECTION(offsets, 2000, 40000)
{
    zserio::Vector<objs::OObj> v;
    arr::M<objs::OObj>::gen(c.rng, v, 1 + c.rng.below(5));
    for (auto& o : v)
    {
        const size_t pos = c.rng.below(64);
        const zserio::View<objs::OObj> view(o);
        ref::Bits want = arr::prefixBits(c.rng, pos);
        const ref::Bits prefix = want;
        arr::M<objs::OObj>::enc(want, o);
        const size_t size = zserio::detail::bitSizeOf(view, static_cast<zserio::BitSize>(pos));
        VH_EQ(c, size, want.size() - pos, "offset-object-size", pos);
        VH_EQ(c, static_cast<size_t>(zserio::detail::initializeOffsets(view, static_cast<zserio::BitSize>(pos))), size,
                "offset-object-end", pos);
        VH_EQ(c, static_cast<uint32_t>(o.off), (pos + 5 + 32 + 7) / 8, "offset-value", pos);
        arr::ExactBuffer buf(want.size());
        zserio::BitStreamWriter w(buf.data.get(), want.size(), zserio::BitsTag());
        for (size_t i = 0; i < pos; ++i)
        {
            w.writeBool(prefix.v[i] != 0);
        }
        zserio::detail::write(w, view);
        const ref::Bits got = ref::Bits::fromBytes(buf.data.get(), want.size());
        c.check(got == want, "offset-object-bits", arr::diffText(got, want));
        // the offset points at the data
        zserio::BitStreamReader r(buf.data.get(), want.size(), zserio::BitsTag());
        r.setBitPosition(static_cast<uint32_t>(o.off) * 8);
        const auto data = r.readBytes();
        c.check(std::equal(data.begin(), data.end(), o.data.begin(), o.data.end()), "offset-points-elsewhere", vh::str(pos));
        c.count("objects");
        c.distinct(vh::mix(pos, o.data.size() * 31 + static_cast<uint32_t>(o.tail)));
    }
}
