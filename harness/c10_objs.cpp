// Objects with offset fields through every entry point: each of them initialises the offsets before it writes.
#include <fstream>
#include <iterator>
#include <unistd.h>

#include "arr.h"
#include "c10.h"
#include "objs.h"
#include "zserio/SerializeUtil.h"

namespace
{

using objs::OObj;
using V = zserio::View<OObj>;
using A = OObj::allocator_type;

struct Expect
{
    OObj obj;
    c10::Bytes want;
    size_t bits;
};

void stale(vh::Case& c, const OObj& o)
{
    o.off = static_cast<uint32_t>(c.rng.chance(10) ? 5 : c.rng.ubits(32)); // 5 is the right one
}

void read(vh::Case& c, const OObj& got, const Expect& e, const char* entry)
{
    c.check(got == e.obj, (std::string("offset-object:") + entry).c_str(), arr::M<OObj>::text(got));
    VH_EQ(c, static_cast<uint32_t>(got.off), 5U, std::string("offset-read:") + entry, "");
    c.count("offsets_read");
}

} // namespace

VH_SECTION(offset_objects, 1500, 40000)
{
    zserio::Vector<OObj> v;
    arr::M<OObj>::gen(c.rng, v, 1);
    Expect e;
    e.obj = v[0];
    ref::Bits bits;
    arr::M<OObj>::enc(bits, e.obj);
    e.want = bits.toBytes();
    e.bits = bits.size();
    c.trace(arr::M<OObj>::text(e.obj));
    const OObj& o = e.obj;
    const V view(o);
    const A alloc;
    const auto buffer = [&](const char* entry, auto&& f) {
        stale(c, o);
        const auto b = f();
        c10::checkBuffer(c, b, e.want, e.bits, entry);
        VH_EQ(c, static_cast<uint32_t>(o.off), 5U, std::string("offset-after:") + entry, "");
    };
    const auto bytes = [&](const char* entry, auto&& f) {
        stale(c, o);
        const auto b = f();
        c10::checkBytes(c, b, e.want, entry);
        VH_EQ(c, static_cast<uint32_t>(o.off), 5U, std::string("offset-after:") + entry, "");
    };
    buffer("offset:serialize(view)", [&]() { return zserio::serialize(view); });
    buffer("offset:serialize(view,alloc)", [&]() { return zserio::serialize(view, alloc); });
    buffer("offset:serialize(data)", [&]() { return zserio::serialize(o); });
    buffer("offset:serialize(data,alloc)", [&]() { return zserio::serialize(o, alloc); });
    bytes("offset:serializeToBytes(view)", [&]() { return zserio::serializeToBytes(view); });
    bytes("offset:serializeToBytes(view,alloc)", [&]() { return zserio::serializeToBytes(view, alloc); });
    bytes("offset:serializeToBytes(data)", [&]() { return zserio::serializeToBytes(o); });
    bytes("offset:serializeToBytes(data,alloc)", [&]() { return zserio::serializeToBytes(o, alloc); });
    // a data view initialises the offsets of its own copy
    {
        stale(c, o);
        const uint32_t before = o.off;
        const zserio::DataView<OObj> dv(o);
        VH_EQ(c, static_cast<uint32_t>(o.off), before, "data-view-touches-source", "");
        VH_EQ(c, static_cast<uint32_t>(dv.zserioData().off), 5U, "data-view-offset", "");
        const zserio::DataView<OObj> copy(dv);
        VH_EQ(c, static_cast<uint32_t>(copy.zserioData().off), 5U, "data-view-copy-offset", "");
        OObj tmp(o);
        const zserio::DataView<OObj> owned(std::move(tmp));
        VH_EQ(c, static_cast<uint32_t>(owned.zserioData().off), 5U, "data-view-rvalue-offset", "");
        for (const zserio::DataView<OObj>* d : {&dv, &copy, &owned})
        {
            c10::checkBuffer(c, zserio::serialize(*d), e.want, e.bits, "offset:serialize(dataView)");
            c10::checkBuffer(c, zserio::serialize(*d, alloc), e.want, e.bits, "offset:serialize(dataView,alloc)");
            c10::checkBytes(c, zserio::serializeToBytes(*d), e.want, "offset:serializeToBytes(dataView)");
            c10::checkBytes(c, zserio::serializeToBytes(*d, alloc), e.want, "offset:serializeToBytes(dataView,alloc)");
        }
    }
    {
        const zserio::Span<const uint8_t> span(e.want.data(), e.want.size());
        OObj got;
        (void)zserio::deserializeFromBytes(span, got);
        read(c, got, e, "deserializeFromBytes(data)");
        const zserio::DataView<OObj> dv = zserio::deserializeFromBytes<OObj>(span);
        read(c, dv.zserioData(), e, "deserializeFromBytes<T>");
        const zserio::BasicBitBuffer<A> bb(span, e.bits, alloc);
        OObj got2;
        (void)zserio::deserialize(bb, got2);
        read(c, got2, e, "deserialize(data)");
        // what was read is written as it was
        c10::checkBuffer(c, zserio::serialize(dv), e.want, e.bits, "offset:serialize(read dataView)");
    }
    if (c.rng.chance(20))
    {
        const std::string f = vh::scratchDir() + "/offset.bin";
        const auto check = [&](const char* entry) {
            std::ifstream in(f, std::ios::binary);
            const c10::Bytes got((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
            c10::checkBytes(c, got, e.want, entry);
            OObj back;
            (void)zserio::deserializeFromFile(f, back);
            read(c, back, e, "deserializeFromFile(data)");
            (void)::unlink(f.c_str());
            c.count("files");
        };
        stale(c, o);
        zserio::serializeToFile(view, f);
        check("offset:serializeToFile(view)");
        stale(c, o);
        zserio::serializeToFile(o, f);
        check("offset:serializeToFile(data)");
        stale(c, o);
        const zserio::DataView<OObj> dv(o);
        zserio::serializeToFile(dv, f);
        check("offset:serializeToFile(dataView)");
    }
    c.count("objects");
    c.distinct(vh::mix(e.bits, static_cast<uint32_t>(o.tail) * 131U + static_cast<uint32_t>(o.lead)));
}
