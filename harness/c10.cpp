#include "c10.h"
#include "tobj_std.h"
#include "zserio/SerializeUtil.h"

static tobj::Node gen(vh::Case& c, uint64_t type)
{
    tobj::Gen g(c.rng, tobj::Gen::ANY, c.rng.chance(3) ? 40 : 5, 16);
    tobj::Node n;
    tobj::std_allocator::withAnyType(type, [&](auto*, auto f) { n = f(g); });
    return n;
}

VH_SECTION(entry_points, 15 * 220, 15 * 20000)
{
    const uint64_t type = c.idx % 15;
    const tobj::Node n = gen(c, type);
    c.trace(n.text());
    ref::Bits bits;
    tobj::encode(n, bits);
    const c10::Bytes want = bits.toBytes();
    c10::run_std(c, type, n, want, bits.size());
    c10::run_pmr(c, type, n, want, bits.size());
    c10::run_ppmr(c, type, n, want, bits.size());
    c.count("objects");
    c.distinct(n.hash());
    if (c.wantSample())
    {
        c.sample(n.text(300));
    }
}

// whether a tree contains a choice which selects no field
static bool emptyChoice(const tobj::Node& n)
{
    if (n.kind == tobj::Node::CHOICE && n.kids.empty())
    {
        return true;
    }
    for (const auto& k : n.kids)
    {
        if (emptyChoice(k))
        {
            return true;
        }
    }
    return false;
}

// reading into an object which already holds other data
VH_SECTION(used_object, 15 * 100, 15 * 6000)
{
    const uint64_t type = c.idx % 15;
    const tobj::Node before = gen(c, type);
    const tobj::Node n = gen(c, type);
    c.trace(before.text() + " -> " + n.text());
    if (emptyChoice(n))
    {
        c.count("skipped_empty_choice"); // section used_object_empty_choice
        return;
    }
    c10::reuse_std(c, type, before, n);
    c10::reuse_ppmr(c, type, before, n);
    c.count("objects");
    c.distinct(vh::mix(n.hash(), before.hash()));
}

// Reading a choice whose selector selects no field into an object which holds a field: the generated code (see
// extension/freemarker/Choice.cpp.ftl) leaves the old field set. Every other difference is a violation of its own.
VH_SECTION(used_object_empty_choice, 200, 2000)
{
    namespace O = test_object::std_allocator;
    O::WalkerChoice obj;
    static const unsigned sels[] = {8, 16, 32, 64};
    tobj::Gen g(c.rng, tobj::Gen::ANY);
    const unsigned sel = sels[c.idx % 4];
    const tobj::Node before = g.walkerChoice(sel);
    tobj::std_allocator::build(before, obj);
    const uint8_t one = 0;
    const auto view = zserio::deserializeFromBytes(
            zserio::Span<const uint8_t>(&one, 1), obj, zserio::UInt8(static_cast<uint8_t>(c.rng.below(8))));
    (void)view;
    const tobj::Node after = tobj::std_allocator::extract(obj);
    c.count("objects");
    c.eval();
    if (after == before)
    {
        c.fail("stale-choice-field", vh::str("choice selecting nothing still holds ", after.text()));
    }
    c.check(after.kids.empty(), "wrong-choice-field", after.text());
}
