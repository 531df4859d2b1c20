// Lifetime monitors: tracked element types with planned exceptions, tracking memory resources, allocator kits.
#pragma once
#include <memory>
#include <memory_resource>
#include <unordered_map>

#include "vh.h"
#include "zserio/HashCodeUtil.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"

namespace life
{

struct Boom : std::runtime_error
{
    Boom() :
            std::runtime_error("planned")
    {}
};

struct State
{
    std::unordered_set<const void*> live;
    std::string error;
    int64_t throwIn = -1; // throws when an element operation makes this reach 0
    uint64_t constructed = 0;
    uint64_t destroyed = 0;
    uint64_t thrown = 0;
};

inline State& st()
{
    static State* s = new State;
    return *s;
}

inline void error(const std::string& e)
{
    vh::Pause p;
    if (st().error.empty())
    {
        st().error = e;
    }
}

inline void onConstruct(const void* p)
{
    vh::Pause pause;
    ++st().constructed;
    if (!st().live.insert(p).second)
    {
        error("object constructed over a live object");
    }
}
inline void onDestroy(const void* p)
{
    vh::Pause pause;
    ++st().destroyed;
    if (st().live.erase(p) == 0)
    {
        error("destroyed an object which does not live");
    }
}
inline void onUse(const void* p)
{
    vh::Pause pause;
    if (st().live.count(p) == 0)
    {
        error("used an object which does not live");
    }
}
inline void mayThrow()
{
    if (st().throwIn > 0 && --st().throwIn == 0)
    {
        ++st().thrown;
        throw Boom();
    }
}

constexpr int MOVED = -1;

// N: padding, NOTHROW: whether the move constructor cannot throw, ID: makes types distinct
template <size_t N, bool NOTHROW = true, int ID = 0>
class Tracked
{
public:
    Tracked(int v = 0) :
            m_v((mayThrow(), v))
    {
        onConstruct(this);
    }
    ~Tracked()
    {
        onDestroy(this);
        m_v = -77;
    }
    Tracked(const Tracked& o) :
            m_v((onUse(&o), mayThrow(), o.m_v))
    {
        onConstruct(this);
    }
    Tracked(Tracked&& o) noexcept(NOTHROW) :
            m_v(0)
    {
        onUse(&o);
        if (!NOTHROW)
        {
            mayThrow();
        }
        m_v = o.m_v;
        o.m_v = MOVED;
        onConstruct(this);
    }
    template <size_t N2, bool NT2, int ID2,
            std::enable_if_t<!std::is_same_v<Tracked<N2, NT2, ID2>, Tracked>>* = nullptr>
    Tracked(const Tracked<N2, NT2, ID2>& o) :
            m_v((mayThrow(), o.v()))
    {
        onConstruct(this);
    }
    Tracked& operator=(const Tracked& o)
    {
        onUse(this);
        onUse(&o);
        mayThrow();
        m_v = o.m_v;
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept(NOTHROW)
    {
        onUse(this);
        onUse(&o);
        if (this != &o)
        {
            if (!NOTHROW)
            {
                mayThrow();
            }
            m_v = o.m_v;
            o.m_v = MOVED;
        }
        return *this;
    }
    int v() const
    {
        onUse(this);
        return m_v;
    }
    bool operator==(const Tracked& o) const
    {
        return v() == o.v();
    }
    bool operator!=(const Tracked& o) const
    {
        return v() != o.v();
    }
    bool operator<(const Tracked& o) const
    {
        return v() < o.v();
    }
    bool operator<=(const Tracked& o) const
    {
        return !(o < *this);
    }
    bool operator>=(const Tracked& o) const
    {
        return !(*this < o);
    }
    bool operator>(const Tracked& o) const
    {
        return v() > o.v();
    }

private:
    int m_v;
    char m_pad[N + 1] = {};
};

template <size_t N, bool NT, int ID>
uint32_t calcHashCode(uint32_t seed, const Tracked<N, NT, ID>& t)
{
    return zserio::calcHashCode(seed, static_cast<int32_t>(t.v()));
}

// memory resource which checks that what comes back is what it gave
class TrackRes : public std::pmr::memory_resource
{
public:
    explicit TrackRes(const char* name) :
            m_name(name)
    {}
    ~TrackRes() override
    {
        vh::Pause p;
        if (!m_blocks.empty())
        {
            error(vh::str("resource ", m_name, " destroyed with ", m_blocks.size(), " live blocks"));
        }
        m_blocks.clear();
        std::unordered_map<void*, std::pair<size_t, size_t>>().swap(m_blocks);
    }
    size_t live() const
    {
        return m_blocks.size();
    }
    uint64_t total() const
    {
        return m_total;
    }
    int64_t failIn = -1; // the allocation which makes this reach 0 fails
    bool failAll = false; // the following ones fail as well
    uint64_t failed = 0;
    size_t lastSize = 0; // the request before, also if it failed
    size_t lastAlign = 0;
    bool unwanted = false; // tells where allocations come from if stacks are wanted

private:
    void* do_allocate(size_t n, size_t align) override
    {
        lastSize = n;
        lastAlign = align;
        if ((failIn > 0 && --failIn == 0) || (failIn == 0 && failAll))
        {
            ++failed;
            throw std::bad_alloc();
        }
        if (unwanted)
        {
            vh::printStack();
        }
        const vh::Exempt exempt;
        void* p = nullptr;
        if (align > alignof(std::max_align_t))
        {
            p = ::operator new(n == 0 ? 1 : n, std::align_val_t(align));
        }
        else
        {
            p = ::operator new(n == 0 ? 1 : n);
        }
        vh::Pause pause;
        m_blocks[p] = {n, align};
        ++m_total;
        return p;
    }
    void do_deallocate(void* p, size_t n, size_t align) override
    {
        {
            vh::Pause pause;
            const auto it = m_blocks.find(p);
            if (it == m_blocks.end())
            {
                error(vh::str("memory returned to resource ", m_name, " which did not provide it"));
                return;
            }
            if (it->second.first != n || it->second.second != align)
            {
                error(vh::str("memory returned to resource ", m_name, " with size/alignment ", n, "/", align,
                        " but was allocated with ", it->second.first, "/", it->second.second));
            }
            align = it->second.second;
            m_blocks.erase(it);
        }
        if (align > alignof(std::max_align_t))
        {
            ::operator delete(p, std::align_val_t(align));
        }
        else
        {
            ::operator delete(p);
        }
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override
    {
        return this == &o;
    }

    const char* m_name;
    std::unordered_map<void*, std::pair<size_t, size_t>> m_blocks;
    uint64_t m_total = 0;
};

// resources of one case: two to be passed as allocators and the one installed as default
struct Resources
{
    TrackRes r0{"0"};
    TrackRes r1{"1"};
    TrackRes def{"default"};
    std::pmr::memory_resource* old;
    Resources() :
            old(std::pmr::set_default_resource(&def))
    {
        vh::Pause p;
        st().live.clear();
        st().error.clear();
        st().throwIn = -1;
    }
    ~Resources()
    {
        std::pmr::set_default_resource(old);
    }
};

// rules of an allocator: which id an object has after an operation (0, 1, 2 = default resource)
template <typename A>
struct Kit;

template <>
struct Kit<std::allocator<uint8_t>>
{
    static constexpr const char* name = "std";
    static constexpr bool swapUnequal = true;
    static std::allocator<uint8_t> make(Resources&, int)
    {
        return {};
    }
    static int id(Resources&, const std::allocator<uint8_t>&)
    {
        return 0;
    }
    static int norm(int)
    {
        return 0;
    }
    static int copyCtor(int)
    {
        return 0;
    }
    static int assign(int, int)
    {
        return 0;
    }
    static void swap(int&, int&)
    {}
};

template <>
struct Kit<std::pmr::polymorphic_allocator<uint8_t>>
{
    using A = std::pmr::polymorphic_allocator<uint8_t>;
    static constexpr const char* name = "pmr";
    static constexpr bool swapUnequal = false;
    static A make(Resources& r, int i)
    {
        return i == 0 ? A(&r.r0) : (i == 1 ? A(&r.r1) : A(&r.def));
    }
    static int id(Resources& r, const A& a)
    {
        return a.resource() == &r.r0 ? 0 : (a.resource() == &r.r1 ? 1 : (a.resource() == &r.def ? 2 : 3));
    }
    static int norm(int i)
    {
        return i;
    }
    static int copyCtor(int)
    {
        return 2;
    }
    static int assign(int to, int)
    {
        return to;
    }
    static void swap(int&, int&)
    {}
};

template <>
struct Kit<zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>>
{
    using A = zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>;
    static constexpr const char* name = "ppmr";
    static constexpr bool swapUnequal = true;
    static A make(Resources& r, int i)
    {
        return i == 0 ? A(&r.r0) : (i == 1 ? A(&r.r1) : A(&r.def));
    }
    static int id(Resources& r, const A& a)
    {
        return a.resource() == &r.r0 ? 0 : (a.resource() == &r.r1 ? 1 : (a.resource() == &r.def ? 2 : 3));
    }
    static int norm(int i)
    {
        return i;
    }
    static int copyCtor(int i)
    {
        return i;
    }
    static int assign(int, int from)
    {
        return from;
    }
    static void swap(int& a, int& b)
    {
        std::swap(a, b);
    }
};

// state of a holder in the models
struct Slot
{
    int kind = -1; // -1 empty, else index of the type
    int v = 0;
    int alloc = 0;
    bool operator==(const Slot& o) const
    {
        return kind == o.kind && (kind < 0 || v == o.v);
    }
    std::string text() const
    {
        return kind < 0 ? std::string("empty") : vh::str(kind, ":", v);
    }
};

} // namespace life
