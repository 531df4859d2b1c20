#include "c11_arr.h"
#include "tobj_std.h"

std::vector<std::pair<std::string, arr::Body>>& arr::bodies()
{
    static auto* b = new std::vector<std::pair<std::string, arr::Body>>;
    return *b;
}

static void judge(vh::Case& c, uint64_t type, const c11::Input& in)
{
    ref::Bits b = in.bits;
    tobj::Node want;
    bool ok = false;
    size_t end = 0;
    try
    {
        c11::Decoder d{b, in.start};
        want = d.any(type, in.param);
        end = d.pos;
        ok = true;
    }
    catch (const c11::Reject& e)
    {
        c.count(vh::str("reject_", e.why).c_str());
    }
    if (ok)
    {
        c.count("accepted");
    }
    c.trace(vh::str("type ", type, " param ", in.param, " start ", in.start, " prealloc ", in.prealloc, " bits ", in.bits.size(), ": ",
            vh::hex(in.bits.toBytes().data(), in.bits.toBytes().size(), 200)));
    c11::run_std(c, type, in, ok ? &want : nullptr, end);
    c11::run_ppmr(c, type, in, ok ? &want : nullptr, end);
    c.distinct(vh::mix(vh::hashStr(std::string_view(reinterpret_cast<const char*>(in.bits.v.data()), in.bits.v.size())), type));
    c.clearTrace();
    if (c.wantSample() && ok)
    {
        c.sample(vh::str("type ", type, " ", in.bits.size(), " bits -> ", want.text(200)));
    }
}

static int anyParam(vh::Rng& r, uint64_t type)
{
    switch (type)
    {
    case 10:
    {
        static const int p[] = {8, 16, 32, 64, 0, 255, 9};
        return r.pick(p);
    }
    case 12:
    {
        static const int p[] = {-1, 0, 1};
        return r.pick(p);
    }
    case 13:
        return static_cast<int>(r.below(4));
    default:
        return static_cast<int>(r.below(1000));
    }
}

// random bits
VH_SECTION(random_bits, 15 * 1200, 15 * 60000)
{
    auto& r = c.rng;
    c11::Input in;
    const uint64_t type = c.idx % 15;
    in.param = anyParam(r, type);
    in.start = r.chance(70) ? 0 : r.below(20);
    size_t n = r.chance(80) ? r.below(200) : r.below(3000);
    if (r.flip())
    {
        n -= n % 8;
    }
    in.bits = c11::randomBits(r, in.start + n);
    in.prealloc = r.below(3) == 0 ? r.below(100) : (r.flip() ? r.below(5000) : size_t(128) * 1024);
    judge(c, type, in);
}

// mutated valid encodings
VH_SECTION(mutated, 15 * 1500, 15 * 100000)
{
    auto& r = c.rng;
    c11::Input in;
    const uint64_t type = c.idx % 15;
    in.start = r.chance(70) ? 0 : r.below(20);
    tobj::Gen g(r, tobj::Gen::ANY, 4, 10);
    tobj::Node n;
    tobj::std_allocator::withAnyType(type, [&](auto*, auto f) { n = f(g); });
    // the parameter which fits, or any
    in.param = anyParam(r, type);
    if (r.chance(85))
    {
        if (type == 10)
        {
            in.param = n.kids.empty() ? 0 : static_cast<int>(n.kids[0].width);
        }
        else if (type == 12)
        {
            in.param = n.kids.empty() ? 1 : (n.kids[0].name == "valueStr" ? -1 : 0);
        }
        else if (type == 13)
        {
            in.param = n.kids.empty() ? 3 : 1;
        }
    }
    in.bits = arr::prefixBits(r, in.start);
    tobj::encode(n, in.bits);
    if (r.chance(92))
    {
        c11::mutate(r, in.bits, in.start);
    }
    if (r.flip())
    {
        while (in.bits.size() % 8 != 0)
        {
            in.bits.put(r.below(2), 1);
        }
    }
    in.prealloc = r.below(3) == 0 ? r.below(100) : (r.flip() ? r.below(5000) : size_t(128) * 1024);
    judge(c, type, in);
}

// every truncation of a valid encoding
VH_SECTION(truncated, 15 * 12, 15 * 500)
{
    auto& r = c.rng;
    const uint64_t type = c.idx % 15;
    tobj::Gen g(r, tobj::Gen::ANY, 2, 6);
    tobj::Node n;
    tobj::std_allocator::withAnyType(type, [&](auto*, auto f) { n = f(g); });
    c11::Input in;
    in.param = type == 10 ? (n.kids.empty() ? 0 : static_cast<int>(n.kids[0].width))
                          : (type == 12 ? (n.kids.empty() ? 1 : (n.kids[0].name == "valueStr" ? -1 : 0))
                                        : (type == 13 ? (n.kids.empty() ? 3 : 1) : 5));
    ref::Bits full;
    tobj::encode(n, full);
    const size_t step = full.size() > 600 ? 7 : 1;
    for (size_t cut = 0; cut <= full.size(); cut += step)
    {
        in.bits = full;
        in.bits.v.resize(cut);
        in.prealloc = cut % 3 == 0 ? 16 : 128 * 1024;
        judge(c, type, in);
        c.count("cuts");
    }
}

// arrays of every element type
VH_SECTION(arrays, 57 * 150, 57 * 6000)
{
    auto& b = arr::bodies();
    b[c.idx % b.size()].second(c);
}

// used by c11.inc in the other translation units
