// C14: type-erased holder against a reference model
#include "life.h"
#include "zserio/Any.h"

using namespace life;

namespace
{

using StdA = std::allocator<uint8_t>;
using PmrA = std::pmr::polymorphic_allocator<uint8_t>;
using PpmrA = zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>;

using Small = Tracked<0>; // stored in place
using Small2 = Tracked<1, true, 3>; // stored in place, other type
using Big = Tracked<100>;
using SmallThrow = Tracked<0, false, 4>; // on heap because moving can throw

struct alignas(32) Aligned : Tracked<3, true, 5>
{
    using Tracked<3, true, 5>::Tracked;
    Aligned(int v = 0) :
            Tracked<3, true, 5>(v)
    {
        if (reinterpret_cast<uintptr_t>(this) % 32 != 0)
        {
            error("over-aligned object at a wrong address");
        }
    }
};

template <typename T>
struct Val
{
    static T make(int v)
    {
        return T(v);
    }
    static int get(const T& t)
    {
        return t.v();
    }
};
template <>
struct Val<int>
{
    static int make(int v)
    {
        return v;
    }
    static int get(const int& t)
    {
        return t;
    }
};
template <>
struct Val<std::string>
{
    static std::string make(int v)
    {
        return v < 0 ? std::string() : vh::str("a string longer than the small buffer ", v);
    }
    static int get(const std::string& s)
    {
        return s.empty() ? MOVED : atoi(s.c_str() + sizeof "a string longer than the small buffer " - 1);
    }
};
template <>
struct Val<std::vector<int>>
{
    static std::vector<int> make(int v)
    {
        return std::vector<int>(5, v);
    }
    static int get(const std::vector<int>& s)
    {
        return s.empty() ? MOVED : s.back();
    }
};

template <typename A>
struct Runner
{
    using Any = zserio::BasicAny<A>;
    using K = Kit<A>;
    static constexpr size_t N = 3;
    static constexpr unsigned TYPES = 8;

    vh::Case& c;
    Resources& res;
    std::vector<std::unique_ptr<Any>> o;
    Slot m[N];

    template <typename F>
    static void withType(unsigned k, F&& f)
    {
        switch (k)
        {
        case 0:
            f(static_cast<int*>(nullptr));
            break;
        case 1:
            f(static_cast<Small*>(nullptr));
            break;
        case 2:
            f(static_cast<Small2*>(nullptr));
            break;
        case 3:
            f(static_cast<Big*>(nullptr));
            break;
        case 4:
            f(static_cast<SmallThrow*>(nullptr));
            break;
        case 5:
            f(static_cast<std::string*>(nullptr));
            break;
        case 6:
            f(static_cast<std::vector<int>*>(nullptr));
            break;
        default:
            f(static_cast<Aligned*>(nullptr));
            break;
        }
    }

    // all observers must agree
    Slot look(size_t i) const
    {
        Slot s;
        const Any& x = *o[i];
        unsigned found = 0;
        for (unsigned k = 0; k < TYPES; ++k)
        {
            withType(k, [&](auto* t) {
                using T = std::remove_pointer_t<decltype(t)>;
                const bool is = x.template isType<T>();
                const T* p = x.template get_if<T>();
                T* q = o[i]->template get_if<T>();
                bool got = is;
                const T* g = p;
                if (is || c.rng.chance(15)) // exceptions are slow
                try
                {
                    g = nullptr;
                    got = true;
                    g = &x.template get<T>();
                    const T* g2 = &o[i]->template get<T>();
                    c.check(g == g2, "getters-differ", "");
                }
                catch (const zserio::CppRuntimeException&)
                {
                    got = false;
                }
                catch (const std::exception& e)
                {
                    c.fail("foreign-exception", vh::str("get of type ", k, ": ", e.what()));
                }
                c.check((p != nullptr) == is && q == p && got == is && (!got || g == p), "observers-disagree",
                        vh::str("type ", k, " isType ", is, " get_if ", p != nullptr, " get ", got));
                if (is)
                {
                    ++found;
                    s.kind = static_cast<int>(k);
                    s.v = Val<T>::get(*p);
                }
            });
        }
        VH_CHECK(c, found == (x.hasValue() ? 1U : 0U), "hasValue", "hasValue ", x.hasValue(), " types found ", found);
        c.check(!x.template isType<double>() && x.template get_if<double>() == nullptr, "wrong-type", "");
        s.alloc = K::id(res, x.get_allocator());
        return s;
    }

    void verify(size_t i, const char* op)
    {
        const Slot s = look(i);
        VH_CHECK(c, s == m[i], std::string("value:") + op, K::name, " slot ", i, " holds ", s.text(), " expected ", m[i].text());
        VH_CHECK(c, s.alloc == m[i].alloc, std::string("allocator:") + op, K::name, " slot ", i, " uses allocator ", s.alloc,
                " expected ", m[i].alloc);
        VH_CHECK(c, st().error.empty(), std::string("lifetime:") + op, st().error);
    }
    void settle(size_t i, std::initializer_list<Slot> allowed, const char* op)
    {
        const Slot s = look(i);
        for (const Slot& a : allowed)
        {
            if (s == a && s.alloc == a.alloc)
            {
                m[i] = s;
                return;
            }
        }
        c.fail(std::string("value:") + op,
                vh::str(K::name, " slot ", i, " holds ", s.text(), " allocator ", s.alloc, " was ", m[i].text(), " ", m[i].alloc));
    }
    static Slot val(unsigned k, int v, int alloc)
    {
        Slot s;
        s.kind = static_cast<int>(k);
        s.v = v;
        s.alloc = alloc;
        return s;
    }
    static Slot none(int alloc)
    {
        Slot s;
        s.alloc = alloc;
        return s;
    }
    static Slot with(Slot s, int alloc)
    {
        s.alloc = alloc;
        return s;
    }
    template <typename F>
    bool attempt(const char* op, F&& f)
    {
        auto& r = c.rng;
        st().throwIn = r.chance(25) ? 1 + static_cast<int64_t>(r.below(3)) : -1;
        bool ok = true;
        try
        {
            f();
        }
        catch (const Boom&)
        {
            ok = false;
            c.count("planned_exceptions");
        }
        st().throwIn = -1;
        c.count(op);
        VH_CHECK(c, st().error.empty(), std::string("lifetime:") + op, st().error);
        return ok;
    }
    void failed(size_t i, int newAlloc, const char* op)
    {
        settle(i, {m[i], none(m[i].alloc), none(newAlloc)}, op);
    }
    void source(size_t j, const char* op)
    {
        Slot moved = m[j];
        moved.v = MOVED;
        settle(j, {m[j], none(m[j].alloc), moved}, op);
    }
    void replace(size_t i, std::unique_ptr<Any> n, Slot s)
    {
        o[i] = std::move(n);
        m[i] = s;
    }

    void run()
    {
        auto& r = c.rng;
        for (size_t i = 0; i < N; ++i)
        {
            const int a = K::norm(static_cast<int>(r.below(2)));
            o.push_back(std::make_unique<Any>(K::make(res, a)));
            m[i] = none(a);
        }
        const size_t steps = 10 + r.below(40);
        uint64_t h = 0;
        for (size_t s = 0; s < steps; ++s)
        {
            const size_t i = r.below(N);
            const size_t j = r.below(N);
            const unsigned op = static_cast<unsigned>(r.below(19));
            const unsigned k = static_cast<unsigned>(r.below(TYPES));
            const int v = static_cast<int>(r.below(10));
            const int a = K::norm(static_cast<int>(r.below(2)));
            h = vh::mix(h, op * 10000 + i * 1000 + j * 100 + k * 10 + static_cast<unsigned>(v));
            c.trace(vh::str("op", op, "(", i, ",", j, ",", v, ",", a, ") type ", k));
            step(op, i, j, k, v, a);
            for (size_t x = 0; x < N; ++x)
            {
                verify(x, vh::str("after-op", op).c_str());
            }
        }
        c.distinct(vh::mix(h, sizeof(A) + 3 * sizeof(K::name[0])) + static_cast<uint64_t>(K::name[1]));
        o.clear();
        VH_CHECK(c, st().error.empty(), "lifetime:end", st().error);
        VH_EQ(c, st().live.size(), size_t(0), "live-objects-at-end", "");
    }

    void step(unsigned op, size_t i, size_t j, unsigned k, int v, int a)
    {
        auto& r = c.rng;
        std::unique_ptr<Any> n;
        const int ai = m[i].alloc;
        switch (op)
        {
        case 0:
            o[i]->reset();
            m[i] = none(ai);
            c.count("reset");
            break;
        case 1:
        case 2:
            withType(k, [&](auto* t) {
                using T = std::remove_pointer_t<decltype(t)>;
                const T val_ = Val<T>::make(v);
                if (attempt("set", [&]() {
                        if (op == 1)
                        {
                            o[i]->set(val_);
                        }
                        else
                        {
                            *o[i] = val_;
                        }
                    }))
                {
                    m[i] = val(k, v, ai);
                }
                else
                {
                    failed(i, ai, "set");
                }
                VH_EQ(c, Val<T>::get(val_), v, "set-source", "");
            });
            break;
        case 3:
        case 4:
            withType(k, [&](auto* t) {
                using T = std::remove_pointer_t<decltype(t)>;
                T val_ = Val<T>::make(v);
                if (attempt("set_rvalue", [&]() {
                        if (op == 3)
                        {
                            o[i]->set(std::move(val_));
                        }
                        else
                        {
                            *o[i] = std::move(val_);
                        }
                    }))
                {
                    m[i] = val(k, v, ai);
                }
                else
                {
                    // a failed move assignment may have moved the old value only for the same type
                    failed(i, ai, "set_rvalue");
                }
            });
            break;
        case 5:
        case 6:
            withType(k, [&](auto* t) {
                using T = std::remove_pointer_t<decltype(t)>;
                const T* p = nullptr;
                if (attempt("emplace", [&]() {
                        if constexpr (std::is_constructible_v<T, int> && !std::is_same_v<T, std::vector<int>>)
                        {
                            p = &o[i]->template emplace<T>(v);
                        }
                        else
                        {
                            p = &o[i]->template emplace<T>(Val<T>::make(v));
                        }
                    }))
                {
                    m[i] = val(k, v, ai);
                    c.check(p == o[i]->template get_if<T>(), "emplace-result", "");
                }
                else
                {
                    failed(i, ai, "emplace");
                }
            });
            break;
        case 7:
        case 8:
        {
            const int na = i == j ? ai : K::assign(ai, m[j].alloc);
            if (attempt(i == j ? "self_copy_assign" : "copy_assign", [&]() { *o[i] = std::as_const(*o[j]); }))
            {
                const Slot src = m[j];
                m[i] = with(src, na);
            }
            else
            {
                failed(i, na, "copy_assign");
            }
            break;
        }
        case 9:
        case 10:
        {
            const int na = i == j ? ai : K::assign(ai, m[j].alloc);
            const Slot src = m[j];
            if (attempt(i == j ? "self_move_assign" : "move_assign", [&]() { *o[i] = std::move(*o[j]); }))
            {
                if (i != j)
                {
                    m[i] = with(src, na);
                    source(j, "move_assign");
                }
            }
            else
            {
                failed(i, na, "move_assign");
                if (i != j)
                {
                    source(j, "move_assign");
                }
            }
            break;
        }
        case 11:
        case 12:
        {
            const Slot mi = m[i];
            const Slot mj = m[j];
            if (attempt("swap", [&]() { o[i]->swap(*o[j]); }))
            {
                int x = mi.alloc;
                int y = mj.alloc;
                K::swap(x, y);
                m[i] = with(mj, x);
                m[j] = with(mi, y);
                c.count(mi.alloc == mj.alloc ? "swap_equal_allocators" : "swap_unequal_allocators");
            }
            else
            {
                const int x = mi.alloc;
                const int y = mj.alloc;
                for (const size_t q : {i, j})
                {
                    settle(q, {with(mi, x), with(mi, y), with(mj, x), with(mj, y), none(x), none(y)}, "swap");
                }
            }
            break;
        }
        case 13:
            if (attempt("copy", [&]() { n = std::make_unique<Any>(std::as_const(*o[j])); }))
            {
                replace(i, std::move(n), with(m[j], K::copyCtor(m[j].alloc)));
            }
            break;
        case 14:
            if (attempt("copy_alloc", [&]() { n = std::make_unique<Any>(std::as_const(*o[j]), K::make(res, a)); }))
            {
                replace(i, std::move(n), with(m[j], a));
            }
            break;
        case 15:
        case 16:
        {
            const Slot s = m[j];
            const bool withAlloc = op == 16;
            const bool ok = attempt(withAlloc ? "move_alloc" : "move", [&]() {
                n = withAlloc ? std::make_unique<Any>(std::move(*o[j]), K::make(res, a))
                              : std::make_unique<Any>(std::move(*o[j]));
            });
            source(j, "move");
            if (ok)
            {
                replace(i, std::move(n), with(s, withAlloc ? a : s.alloc));
            }
            break;
        }
        default:
            withType(k, [&](auto* t) {
                using T = std::remove_pointer_t<decltype(t)>;
                T val_ = Val<T>::make(v);
                if (attempt("construct_value", [&]() {
                        n = r.flip() ? std::make_unique<Any>(std::as_const(val_), K::make(res, a))
                                     : std::make_unique<Any>(std::move(val_), K::make(res, a));
                    }))
                {
                    replace(i, std::move(n), val(k, v, a));
                }
            });
            break;
        }
        st().throwIn = -1;
    }
};

template <typename A>
void history(vh::Case& c)
{
    c.trace(Kit<A>::name);
    Resources res;
    {
        Runner<A> r{c, res, {}, {}};
        r.run();
    }
    c.count("allocations", res.r0.total() + res.r1.total() + res.def.total());
    VH_CHECK(c, st().error.empty(), "lifetime:end", st().error);
    VH_EQ(c, res.r0.live() + res.r1.live() + res.def.live(), size_t(0), "blocks-at-end", "");
    if (c.wantSample())
    {
        c.sample(c.traceText().substr(0, 300));
    }
}

} // namespace

VH_SECTION(histories, 3 * 1500, 3 * 200000)
{
    switch (c.idx % 3)
    {
    case 0:
        return history<StdA>(c);
    case 1:
        return history<PmrA>(c);
    default:
        return history<PpmrA>(c);
    }
}

// a holder assigned from a part of its own value
VH_SECTION(parts, 2000, 60000)
{
    using Any = zserio::Any;
    auto& r = c.rng;
    Resources res;
    {
        struct Node
        {
            Tracked<0> t;
            std::vector<Any> kids;
            std::string text;
        };
        Node n;
        n.t = Tracked<0>(5);
        const size_t kids = 1 + r.below(4);
        for (size_t i = 0; i < kids; ++i)
        {
            n.kids.emplace_back(r.flip() ? Any(Big(static_cast<int>(i))) : Any(Small(static_cast<int>(i))));
        }
        n.text = "some text which is long enough for the heap";
        Any a(std::move(n));
        const size_t k = r.below(kids);
        const unsigned op = static_cast<unsigned>(r.below(4));
        c.trace(vh::str("op", op, " kid ", k, " of ", kids));
        const auto number = [&](const Any& x) {
            return x.isType<Big>() ? x.get<Big>().v() : (x.isType<Small>() ? x.get<Small>().v() : -5);
        };
        switch (op)
        {
        case 0:
            a = std::as_const(a.get<Node>().kids[k]);
            VH_EQ(c, number(a), static_cast<int>(k), "part-copy", "");
            break;
        case 1:
            a = std::move(a.get<Node>().kids[k]);
            VH_EQ(c, number(a), static_cast<int>(k), "part-move", "");
            break;
        case 2:
            a.get<Node>().kids[k] = std::as_const(a);
            VH_EQ(c, a.get<Node>().kids[k].get<Node>().kids.size(), kids, "whole-into-part", "");
            break;
        default:
            a = std::as_const(a.get<Node>());
            VH_EQ(c, a.get<Node>().kids.size(), kids, "own-value", "");
            break;
        }
        c.count("operations");
        c.distinct(vh::mix(op * 100 + kids * 10 + k, r.next() % 4));
        VH_CHECK(c, st().error.empty(), "lifetime", st().error);
    }
    VH_EQ(c, st().live.size(), size_t(0), "live-objects-at-end", "");
    VH_CHECK(c, st().error.empty(), "lifetime", st().error);
}
