// C12: optional holders against a reference model
#include "life.h"
#include "zserio/Optional.h"

using namespace life;

namespace
{

using StdA = std::allocator<uint8_t>;
using PmrA = std::pmr::polymorphic_allocator<uint8_t>;
using PpmrA = zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>;

using Small = Tracked<0>;
using Big = Tracked<40>;
using SmallThrow = Tracked<1, false>;
using BigThrow = Tracked<60, false>;
using Other = Tracked<2, true, 7>; // converts to the others
using OtherBig = Tracked<50, true, 8>;

template <typename A, typename T>
struct Runner
{
    using Opt = zserio::BasicOptional<A, T>;
    using K = Kit<A>;
    static constexpr size_t N = 3;

    vh::Case& c;
    Resources& res;
    std::vector<std::unique_ptr<Opt>> o;
    Slot m[N];

    Slot look(size_t i) const
    {
        Slot s;
        s.kind = o[i]->has_value() ? 0 : -1;
        if (s.kind == 0)
        {
            s.v = std::as_const(*o[i]).value().v();
        }
        s.alloc = K::id(res, o[i]->get_allocator());
        return s;
    }

    void verify(size_t i, const char* op)
    {
        const Slot s = look(i);
        VH_CHECK(c, s == m[i], std::string("value:") + op, K::name, " slot ", i, " holds ", s.text(), " expected ", m[i].text());
        VH_CHECK(c, s.alloc == m[i].alloc, std::string("allocator:") + op, K::name, " slot ", i, " uses allocator ", s.alloc,
                " expected ", m[i].alloc);
        VH_CHECK(c, st().error.empty(), std::string("lifetime:") + op, st().error);
    }

    // the holder may have ended in one of these states
    void settle(size_t i, std::initializer_list<Slot> allowed, const char* op)
    {
        const Slot s = look(i);
        for (const Slot& a : allowed)
        {
            if (s == a && s.alloc == a.alloc)
            {
                m[i] = s;
                return;
            }
        }
        c.fail(std::string("value:") + op,
                vh::str(K::name, " slot ", i, " holds ", s.text(), " allocator ", s.alloc, " was ", m[i].text(), " ", m[i].alloc));
    }

    static Slot val(int v, int alloc)
    {
        Slot s;
        s.kind = 0;
        s.v = v;
        s.alloc = alloc;
        return s;
    }
    static Slot with(Slot s, int alloc)
    {
        s.alloc = alloc;
        return s;
    }
    static Slot none(int alloc)
    {
        Slot s;
        s.alloc = alloc;
        return s;
    }

    void access(size_t i)
    {
        Opt& x = *o[i];
        const Opt& cx = x;
        const bool has = m[i].kind == 0;
        c.check(static_cast<bool>(x) == has && (cx == std::nullopt) == !has && (std::nullopt == cx) == !has &&
                        (cx != std::nullopt) == has && (std::nullopt != cx) == has,
                "has-value", m[i].text());
        c.check((cx < std::nullopt) == false && (std::nullopt < cx) == has && (cx > std::nullopt) == has &&
                        (std::nullopt > cx) == false && (cx <= std::nullopt) == !has && (std::nullopt <= cx) == true &&
                        (cx >= std::nullopt) == true && (std::nullopt >= cx) == !has,
                "nullopt-order", m[i].text());
        VH_EQ(c, cx.value_or(T(1234)).v(), has ? m[i].v : 1234, "value_or", "");
        VH_EQ(c, x.value_or(T(1234)).v(), has ? m[i].v : 1234, "value_or", "");
        const T probe(5);
        const bool eq = has && m[i].v == 5;
        const bool lt = !has || m[i].v < 5;
        const bool gt = has && m[i].v > 5;
        c.check((cx == probe) == eq && (probe == cx) == eq && (cx != probe) == !eq && (probe != cx) == !eq, "equal-value", m[i].text());
        c.check((cx < probe) == lt && (probe > cx) == lt && (cx > probe) == gt && (probe < cx) == gt && (cx <= probe) == !gt &&
                        (cx >= probe) == !lt && (probe <= cx) == !lt && (probe >= cx) == !gt,
                "value-order", m[i].text());
        const uint32_t want = has ? zserio::calcHashCode(uint32_t(17), static_cast<int32_t>(m[i].v)) : 17;
        VH_EQ(c, zserio::calcHashCode(uint32_t(17), cx), want, "hash", "");
        VH_EQ(c, std::hash<Opt>()(cx),
                size_t(has ? zserio::calcHashCode(zserio::HASH_SEED, static_cast<int32_t>(m[i].v)) : zserio::HASH_SEED), "std-hash", "");
        if (has)
        {
            c.check(&x.value() == &*x && &*x == x.operator->() && &cx.value() == &*cx && cx.operator->() == &*cx && &*cx == &*x,
                    "getters-differ", "");
            const T& rv = std::move(x).value();
            const T& rv2 = *std::move(x);
            const T& rv3 = std::move(cx).value();
            const T& rv4 = *std::move(cx);
            c.check(&rv == &*x && &rv2 == &*x && &rv3 == &*x && &rv4 == &*x, "rvalue-getters-differ", "");
        }
        else
        {
            unsigned thrown = 0;
            const auto bad = [&](auto&& f) {
                try
                {
                    f();
                }
                catch (const zserio::BadOptionalAccess&)
                {
                    ++thrown;
                }
            };
            bad([&]() { (void)x.value(); });
            bad([&]() { (void)cx.value(); });
            bad([&]() { (void)*x; });
            bad([&]() { (void)*cx; });
            bad([&]() { (void)x->v(); });
            bad([&]() { (void)cx->v(); });
            bad([&]() { (void)std::move(x).value(); });
            bad([&]() { (void)*std::move(x); });
            bad([&]() { (void)std::move(cx).value(); });
            VH_EQ(c, thrown, 9U, "empty-access", "accesses that threw");
            c.count("empty_accesses", 9);
        }
        verify(i, "access");
    }

    void compare(size_t i, size_t j)
    {
        const Opt& a = *o[i];
        const Opt& b = *o[j];
        // the order of the model: empty first, then the value
        const auto key = [](const Slot& s) { return s.kind < 0 ? std::pair<int, int>(0, 0) : std::pair<int, int>(1, s.v); };
        const auto x = key(m[i]);
        const auto y = key(m[j]);
        c.check((a == b) == (x == y) && (a != b) == (x != y), "equality", m[i].text() + " " + m[j].text());
        c.check((a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "order",
                m[i].text() + " " + m[j].text());
        c.check((x != y) || std::hash<Opt>()(a) == std::hash<Opt>()(b), "hash-of-equal", "");
    }

    // runs an operation, with a planned exception sometimes
    template <typename F>
    bool attempt(const char* op, F&& f)
    {
        auto& r = c.rng;
        const bool plan = r.chance(25);
        st().throwIn = plan ? 1 + static_cast<int64_t>(r.below(3)) : -1;
        bool ok = true;
        try
        {
            f();
        }
        catch (const Boom&)
        {
            ok = false;
            c.count("planned_exceptions");
        }
        st().throwIn = -1;
        c.count(op);
        VH_CHECK(c, st().error.empty(), std::string("lifetime:") + op, st().error);
        return ok;
    }

    void run()
    {
        auto& r = c.rng;
        for (size_t i = 0; i < N; ++i)
        {
            const int a = K::norm(static_cast<int>(r.below(2)));
            o.push_back(std::make_unique<Opt>(K::make(res, a)));
            m[i] = none(a);
        }
        const size_t steps = 10 + r.below(40);
        uint64_t h = 0;
        for (size_t s = 0; s < steps; ++s)
        {
            const size_t i = r.below(N);
            const size_t j = r.below(N);
            const unsigned op = static_cast<unsigned>(r.below(24));
            const int v = static_cast<int>(r.below(10));
            const int a = K::norm(static_cast<int>(r.below(2)));
            h = vh::mix(h, op * 1000 + i * 100 + j * 10 + static_cast<unsigned>(v));
            c.trace(vh::str("op", op, "(", i, ",", j, ",", v, ",", a, ")"));
            step(op, i, j, v, a);
            for (size_t k = 0; k < N; ++k)
            {
                verify(k, vh::str("after-op", op).c_str());
            }
        }
        c.distinct(vh::mix(h, sizeof(T) * 8 + sizeof(A)));
        o.clear();
        VH_CHECK(c, st().error.empty(), "lifetime:end", st().error);
        VH_EQ(c, st().live.size(), size_t(0), "live-objects-at-end", "");
    }

    // an assignment-like operation on slot i failed
    void failed(size_t i, int newAlloc, const char* op)
    {
        settle(i, {m[i], none(m[i].alloc), none(newAlloc)}, op);
    }
    void source(size_t j, const char* op)
    {
        settle(j, {m[j], none(m[j].alloc), m[j].kind == 0 ? val(MOVED, m[j].alloc) : none(m[j].alloc)}, op);
    }

    void replace(size_t i, std::unique_ptr<Opt> n, Slot s)
    {
        o[i] = std::move(n);
        m[i] = s;
    }

    template <typename U>
    void convert(size_t i, int v, int a, unsigned how)
    {
        using OptU = zserio::BasicOptional<A, U>;
        OptU u(K::make(res, a));
        const bool has = v != 0;
        if (has)
        {
            u.emplace(v);
        }
        const Slot from = has ? val(v, a) : none(a);
        std::unique_ptr<Opt> n;
        switch (how)
        {
        case 0:
            if (attempt("convert_copy_assign", [&]() { *o[i] = u; }))
            {
                m[i] = has ? val(v, K::assign(m[i].alloc, a)) : none(K::assign(m[i].alloc, a));
            }
            else
            {
                failed(i, K::assign(m[i].alloc, a), "convert_copy_assign");
            }
            break;
        case 1:
            if (attempt("convert_move_assign", [&]() { *o[i] = std::move(u); }))
            {
                m[i] = has ? val(v, K::assign(m[i].alloc, a)) : none(K::assign(m[i].alloc, a));
            }
            else
            {
                failed(i, K::assign(m[i].alloc, a), "convert_move_assign");
            }
            break;
        case 2:
            if (attempt("convert_copy", [&]() { n = std::make_unique<Opt>(u); }))
            {
                replace(i, std::move(n), has ? val(v, K::copyCtor(a)) : none(K::copyCtor(a)));
            }
            break;
        case 3:
            if (attempt("convert_move", [&]() { n = std::make_unique<Opt>(std::move(u)); }))
            {
                replace(i, std::move(n), from);
            }
            break;
        case 4:
            if (attempt("convert_copy_alloc", [&]() { n = std::make_unique<Opt>(u, K::make(res, 1 - a)); }))
            {
                const int b = K::norm(1 - a);
                replace(i, std::move(n), has ? val(v, b) : none(b));
            }
            break;
        default:
            if (attempt("convert_move_alloc", [&]() { n = std::make_unique<Opt>(std::move(u), K::make(res, 1 - a)); }))
            {
                const int b = K::norm(1 - a);
                replace(i, std::move(n), has ? val(v, b) : none(b));
            }
            break;
        }
    }

    void step(unsigned op, size_t i, size_t j, int v, int a)
    {
        auto& r = c.rng;
        std::unique_ptr<Opt> n;
        const int ai = m[i].alloc;
        switch (op)
        {
        case 0:
            o[i]->reset();
            m[i] = none(ai);
            c.count("reset");
            break;
        case 1:
        case 2:
        {
            const T* p = nullptr;
            if (attempt("emplace", [&]() { p = &o[i]->emplace(v); }))
            {
                m[i] = val(v, ai);
                c.check(p == &**o[i], "emplace-result", "");
            }
            else
            {
                failed(i, ai, "emplace");
            }
            break;
        }
        case 3:
        {
            const T t(v);
            if (attempt("assign_value", [&]() { *o[i] = t; }))
            {
                m[i] = val(v, ai);
            }
            else
            {
                failed(i, ai, "assign_value");
            }
            VH_EQ(c, t.v(), v, "assigned-source", "");
            break;
        }
        case 4:
        {
            T t(v);
            if (attempt("assign_rvalue", [&]() { *o[i] = std::move(t); }))
            {
                m[i] = val(v, ai);
            }
            else
            {
                failed(i, ai, "assign_rvalue");
            }
            break;
        }
        case 5:
        case 6:
        {
            const int na = i == j ? ai : K::assign(ai, m[j].alloc);
            if (attempt(i == j ? "self_copy_assign" : "copy_assign", [&]() { *o[i] = std::as_const(*o[j]); }))
            {
                const Slot src = m[j];
                m[i] = src;
                m[i].alloc = na;
            }
            else
            {
                failed(i, na, "copy_assign");
            }
            break;
        }
        case 7:
        case 8:
        {
            const int na = i == j ? ai : K::assign(ai, m[j].alloc);
            const Slot src = m[j];
            if (attempt(i == j ? "self_move_assign" : "move_assign", [&]() { *o[i] = std::move(*o[j]); }))
            {
                if (i != j)
                {
                    m[i] = src;
                    m[i].alloc = na;
                    source(j, "move_assign");
                }
                else
                {
                    settle(i, {m[i]}, "self_move_assign");
                }
            }
            else
            {
                failed(i, na, "move_assign");
                if (i != j)
                {
                    source(j, "move_assign");
                }
            }
            break;
        }
        case 9:
        case 10:
            if (K::swapUnequal || m[i].alloc == m[j].alloc)
            {
                if (attempt("swap", [&]() {
                        if (r.flip())
                        {
                            o[i]->swap(*o[j]);
                        }
                        else
                        {
                            o[j]->swap(*o[i]);
                        }
                    }))
                {
                    std::swap(m[i], m[j]);
                    if (i != j)
                    {
                        // allocators follow the rule of the allocator type
                        int x = m[j].alloc;
                        int y = m[i].alloc;
                        K::swap(x, y);
                        m[i].alloc = x;
                        m[j].alloc = y;
                    }
                }
                else
                {
                    const Slot mi = m[i];
                    const Slot mj = m[j];
                    // values of any of the two remain, with the allocator of any of the two
                    for (const size_t k : {i, j})
                    {
                        const int x = mi.alloc;
                        const int y = mj.alloc;
                        settle(k, {with(mi, x), with(mi, y), with(mj, x), with(mj, y), none(x), none(y), val(MOVED, x), val(MOVED, y)}, "swap");
                    }
                }
            }
            break;
        case 11:
            if (attempt("copy", [&]() { n = std::make_unique<Opt>(std::as_const(*o[j])); }))
            {
                Slot s = m[j];
                s.alloc = K::copyCtor(s.alloc);
                replace(i, std::move(n), s);
            }
            break;
        case 12:
            if (attempt("copy_alloc", [&]() { n = std::make_unique<Opt>(std::as_const(*o[j]), K::make(res, a)); }))
            {
                Slot s = m[j];
                s.alloc = a;
                replace(i, std::move(n), s);
            }
            break;
        case 13:
        case 14:
        {
            const Slot s = m[j];
            const bool withAlloc = op == 14;
            const bool ok = attempt(withAlloc ? "move_alloc" : "move", [&]() {
                n = withAlloc ? std::make_unique<Opt>(std::move(*o[j]), K::make(res, a))
                              : std::make_unique<Opt>(std::move(*o[j]));
            });
            source(j, "move");
            if (ok)
            {
                Slot t = s;
                t.alloc = withAlloc ? a : s.alloc;
                replace(i, std::move(n), t);
            }
            break;
        }
        case 15:
            *o[i] = std::nullopt;
            m[i] = none(ai);
            c.count("assign_nullopt");
            break;
        case 16:
            if (attempt("construct_in_place", [&]() { n = std::make_unique<Opt>(std::in_place, K::make(res, a), v); }))
            {
                replace(i, std::move(n), val(v, a));
            }
            break;
        case 17:
        {
            const T t(v);
            if (attempt("construct_value", [&]() { n = std::make_unique<Opt>(t, K::make(res, a)); }))
            {
                replace(i, std::move(n), val(v, a));
            }
            break;
        }
        case 18:
        {
            T t(v);
            if (attempt("construct_rvalue", [&]() { n = std::make_unique<Opt>(std::move(t), K::make(res, a)); }))
            {
                replace(i, std::move(n), val(v, a));
            }
            break;
        }
        case 19: // its own value assigned
            if (m[i].kind == 0)
            {
                if (attempt("assign_own_value", [&]() { *o[i] = std::as_const(**o[i]); }))
                {}
                else
                {
                    failed(i, ai, "assign_own_value");
                }
            }
            break;
        case 20: // its own value move assigned
            if (m[i].kind == 0)
            {
                (void)attempt("move_assign_own_value", [&]() { *o[i] = std::move(**o[i]); });
                settle(i, {m[i], none(ai), val(MOVED, ai)}, "move_assign_own_value");
            }
            break;
        case 21:
            convert<Other>(i, v, a, static_cast<unsigned>(r.below(6)));
            break;
        case 22:
            convert<OtherBig>(i, v, a, static_cast<unsigned>(r.below(6)));
            break;
        default:
            for (size_t x = 0; x < N; ++x)
            {
                access(x);
                for (size_t y = 0; y < N; ++y)
                {
                    compare(x, y);
                }
            }
            c.count("observations");
            break;
        }
        st().throwIn = -1;
    }
};

template <typename A, typename T>
void history(vh::Case& c)
{
    c.trace(vh::str(Kit<A>::name, " element of ", sizeof(T), " bytes"));
    Resources res;
    {
        Runner<A, T> r{c, res, {}, {}};
        r.run();
    }
    if (!std::is_same_v<A, StdA> && c.wantSample())
    {
        c.sample(c.traceText().substr(0, 300));
    }
    c.count("allocations", res.r0.total() + res.r1.total() + res.def.total());
    VH_EQ(c, res.r0.live() + res.r1.live() + res.def.live(), size_t(0), "blocks-at-end", "");
}

// an optional which contains another of the same type
struct Rec
{
    using IS_RECURSIVE = void;
    Tracked<0> t;
    zserio::Optional<Rec> next;
};
using List = zserio::Optional<Rec>;

List make(const std::vector<int>& v, size_t from = 0)
{
    List l;
    if (from < v.size())
    {
        l.emplace();
        l->t = Tracked<0>(v[from]);
        l->next = make(v, from + 1);
    }
    return l;
}
std::vector<int> values(const List& l)
{
    std::vector<int> v;
    for (const List* p = &l; p->has_value(); p = &(*p)->next)
    {
        v.push_back((*p)->t.v());
    }
    return v;
}

} // namespace

VH_SECTION(histories, 12 * 700, 12 * 50000)
{
    switch (c.idx % 12)
    {
    case 0:
        return history<StdA, Small>(c);
    case 1:
        return history<StdA, Big>(c);
    case 2:
        return history<StdA, SmallThrow>(c);
    case 3:
        return history<StdA, BigThrow>(c);
    case 4:
        return history<PmrA, Small>(c);
    case 5:
        return history<PmrA, Big>(c);
    case 6:
        return history<PmrA, SmallThrow>(c);
    case 7:
        return history<PmrA, BigThrow>(c);
    case 8:
        return history<PpmrA, Small>(c);
    case 9:
        return history<PpmrA, Big>(c);
    case 10:
        return history<PpmrA, SmallThrow>(c);
    default:
        return history<PpmrA, BigThrow>(c);
    }
}

// assignments from and to parts of the contained value
VH_SECTION(parts, 3000, 100000)
{
    auto& r = c.rng;
    Resources res;
    {
        std::vector<int> v;
        for (size_t i = r.below(6); i-- > 0;)
        {
            v.push_back(static_cast<int>(r.below(100)));
        }
        List l = make(v);
        const size_t steps = 1 + r.below(6);
        for (size_t s = 0; s < steps; ++s)
        {
            const unsigned op = static_cast<unsigned>(r.below(6));
            c.trace(vh::str("op", op, " length ", v.size()));
            if (v.empty())
            {
                break;
            }
            switch (op)
            {
            case 0:
                l = std::move(l->next);
                v.erase(v.begin());
                break;
            case 1:
                l = std::as_const(l->next);
                v.erase(v.begin());
                break;
            case 2:
                if (v.size() > 1)
                {
                    l = std::as_const(*l->next);
                    v.erase(v.begin());
                }
                break;
            case 3:
                if (v.size() > 1)
                {
                    l = std::move(*l->next);
                    v.erase(v.begin());
                }
                break;
            case 4:
                if (v.size() < 20)
                {
                    l->next = std::as_const(l);
                    v.insert(v.begin() + 1, v.begin(), v.end());
                    v = values(make(v)); // copy of the whole list behind the head
                    v = {};
                    for (int x : values(l))
                    {
                        v.push_back(x);
                    }
                    c.check(v.size() >= 2 && v[0] == v[1], "whole-into-part", "");
                }
                break;
            default:
                l = std::as_const(*l);
                break;
            }
            c.count("operations");
            VH_CHECK(c, st().error.empty(), "lifetime", st().error);
            c.check(values(l) == v, "value", vh::str("after op", op, " ", values(l).size(), " elements, expected ", v.size()));
            c.distinct(vh::mix(vh::mix(op, v.size()), s * 31 + (v.empty() ? 0 : static_cast<uint64_t>(v[0]))));
        }
    }
    VH_EQ(c, st().live.size(), size_t(0), "live-objects-at-end", "");
    VH_CHECK(c, st().error.empty(), "lifetime", st().error);
}
