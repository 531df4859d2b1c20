#include "life.h"
#include "tobj_ppmr.h"
#define TOBJ_NS ppmr_allocator
#include "c27.inc"

VH_SECTION(operations_ppmr, 1500, 60000)
{
    c27::runOperations(c);
}
VH_SECTION(histories_ppmr, 5000, 200000)
{
    c27::runHistories(c);
}
VH_SECTION(database_ppmr, 600, 20000)
{
    c27::runDatabase(c);
}

// the propagating allocator itself
namespace
{
template <typename T>
using PA = zserio::ppmr::PropagatingPolymorphicAllocator<T>;

struct alignas(64) Wide
{
    char bytes[64];
};
struct Odd
{
    char bytes[3];
};

// aware of allocators: records how it was built
template <bool LEADING>
struct Aware
{
    using allocator_type = PA<uint8_t>;
    int value = 0;
    std::pmr::memory_resource* from = nullptr;
    Aware() = default;
    Aware(const Aware&) = default;
    Aware& operator=(const Aware&) = default;
    template <bool L = LEADING, std::enable_if_t<L, int> = 0>
    Aware(std::allocator_arg_t, const allocator_type& a, int v) :
            value(v),
            from(a.resource())
    {}
    template <bool L = LEADING, std::enable_if_t<!L, int> = 0>
    Aware(int v, const allocator_type& a) :
            value(v),
            from(a.resource())
    {}
    template <bool L = LEADING, std::enable_if_t<L, int> = 0>
    Aware(std::allocator_arg_t, const allocator_type& a, const Aware& o) :
            value(o.value),
            from(a.resource())
    {}
    template <bool L = LEADING, std::enable_if_t<!L, int> = 0>
    Aware(const Aware& o, const allocator_type& a) :
            value(o.value),
            from(a.resource())
    {}
};

template <typename T>
void counts(vh::Case& c, life::TrackRes& res)
{
    PA<T> a(&res);
    const size_t most = std::numeric_limits<size_t>::max() / sizeof(T);
    for (int i = 0; i < 6; ++i)
    {
        const size_t n = c.rng.chance(50) ? c.rng.below(40) : (most - 3 + c.rng.below(7));
        res.lastSize = 0;
        if (n > (size_t(1) << 40))
        {
            // more than there is: refused, whether by the allocator or by the resource asked for the real size
            res.failIn = 1;
            bool threw = false;
            try
            {
                T* p = a.allocate(n);
                a.deallocate(p, n);
            }
            catch (const std::bad_alloc&)
            {
                threw = true;
            }
            res.failIn = -1;
            VH_CHECK(c, threw, "huge-count", vh::str(n, " of ", sizeof(T)));
            VH_CHECK(c, res.lastSize == 0 || res.lastSize / sizeof(T) == n, "huge-count",
                    vh::str("asked ", res.lastSize, " bytes for ", n, " of ", sizeof(T)));
            c.count("huge_counts");
            continue;
        }
        T* p = a.allocate(n);
        VH_EQ(c, res.lastSize, n * sizeof(T), "count", sizeof(T));
        VH_EQ(c, res.lastAlign, alignof(T), "alignment", sizeof(T));
        PA<T> copy(a);
        PA<char> rebound(copy);
        PA<T> back(rebound);
        VH_CHECK(c, back == a && !(back != a) && back.resource() == &res, "rebind", "");
        back.deallocate(p, n);
        c.count("counts");
    }
}

template <bool LEADING>
void constructs(vh::Case& c, life::TrackRes& r0, life::TrackRes& r1)
{
    using V = std::vector<Aware<LEADING>, PA<Aware<LEADING>>>;
    V a{PA<Aware<LEADING>>(&r0)};
    const size_t n = c.rng.below(12);
    for (size_t i = 0; i < n; ++i)
    {
        a.emplace_back(static_cast<int>(i));
    }
    V b(a);
    V d(a, PA<Aware<LEADING>>(&r1));
    V e{PA<Aware<LEADING>>(&r1)};
    e.emplace_back(77);
    e = a;
    V f{PA<Aware<LEADING>>(&r1)};
    f.emplace_back(78);
    V g(a);
    std::swap(f, g);
    VH_CHECK(c, b.get_allocator().resource() == &r0 && d.get_allocator().resource() == &r1 &&
                    e.get_allocator().resource() == &r0 && f.get_allocator().resource() == &r0 &&
                    g.get_allocator().resource() == &r1,
            "propagation", "");
    for (const V* v : {&a, &b, &d, &e})
    {
        VH_EQ(c, v->size(), n, "size", "");
        for (size_t i = 0; i < v->size(); ++i)
        {
            VH_EQ(c, (*v)[i].value, static_cast<int>(i), "value", "");
            VH_CHECK(c, (*v)[i].from == v->get_allocator().resource(), "uses-allocator", i);
        }
        c.count("constructed", v->size());
    }
}
} // namespace

VH_SECTION(allocator, 400, 20000)
{
    life::Resources res;
    counts<uint8_t>(c, res.r0);
    counts<uint16_t>(c, res.r0);
    counts<uint64_t>(c, res.r1);
    counts<Odd>(c, res.r1);
    counts<Wide>(c, res.r0);
    constructs<true>(c, res.r0, res.r1);
    constructs<false>(c, res.r0, res.r1);
    {
        PA<int> none(nullptr);
        PA<int> def;
        VH_CHECK(c, none.resource() == &res.def && def.resource() == &res.def && none == def, "default", "");
        PA<int> a(&res.r0);
        const PA<char> b(&res.r1);
        VH_CHECK(c, a != b && !(a == b), "unequal", "");
        a = b;
        VH_CHECK(c, a == b && a.resource() == &res.r1, "assign", "");
        VH_CHECK(c, a.select_on_container_copy_construction() == a, "select", "");
    }
    VH_CHECK(c, res.def.total() == 0, "default-used", res.def.total());
    VH_CHECK(c, life::st().error.empty(), "allocation-log", life::st().error);
    c.distinct(c.rng.next());
}
