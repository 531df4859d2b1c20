// C13: variants against a reference model
#include "life.h"
#include "zserio/Variant.h"

using namespace life;

namespace
{

using StdA = std::allocator<uint8_t>;
using PmrA = std::pmr::polymorphic_allocator<uint8_t>;
using PpmrA = zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>;

using Small = Tracked<0>; // inline
using Big = Tracked<100>; // heap
using SmallThrow = Tracked<0, false, 4>; // heap because moving can throw
using Other = Tracked<2, true, 5>; // inline

enum class Tag : int32_t
{
    INT,
    SMALL,
    BIG,
    SMALL_AGAIN,
    THROWING,
    TEXT,
    OTHER
};

struct Text
{
    std::string s;
    Text(int v = 0) :
            s(v == MOVED ? std::string() : vh::str("text which does not fit the small buffer ", v))
    {}
    int v() const
    {
        return s.empty() ? MOVED : atoi(s.c_str() + sizeof "text which does not fit the small buffer " - 1);
    }
    bool operator==(const Text& o) const
    {
        return v() == o.v();
    }
    bool operator!=(const Text& o) const
    {
        return !(*this == o);
    }
    bool operator>(const Text& o) const
    {
        return o < *this;
    }
    bool operator<=(const Text& o) const
    {
        return !(o < *this);
    }
    bool operator>=(const Text& o) const
    {
        return !(*this < o);
    }
    bool operator<(const Text& o) const
    {
        return v() < o.v();
    }
};
uint32_t calcHashCode(uint32_t seed, const Text& t)
{
    return zserio::calcHashCode(seed, static_cast<int32_t>(t.v()));
}
int number(const int32_t& v)
{
    return v;
}
template <typename T>
int number(const T& t)
{
    return t.v();
}

template <typename INDEX>
struct Idx;
template <>
struct Idx<Tag>
{
    static constexpr Tag at(size_t i)
    {
        return static_cast<Tag>(i);
    }
};
template <>
struct Idx<size_t>
{
    static constexpr size_t at(size_t i)
    {
        return i;
    }
};

template <typename A, typename INDEX>
struct Runner
{
    using Var = zserio::BasicVariant<A, INDEX, int32_t, Small, Big, Small, SmallThrow, Text, Other>;
    using K = Kit<A>;
    static constexpr size_t N = 3;
    static constexpr unsigned TYPES = 7;

    vh::Case& c;
    Resources& res;
    std::vector<std::unique_ptr<Var>> o;
    Slot m[N]; // kind -1: valueless

    template <typename F>
    static void withIndex(unsigned k, F&& f)
    {
        switch (k)
        {
        case 0:
            return f(std::integral_constant<size_t, 0>());
        case 1:
            return f(std::integral_constant<size_t, 1>());
        case 2:
            return f(std::integral_constant<size_t, 2>());
        case 3:
            return f(std::integral_constant<size_t, 3>());
        case 4:
            return f(std::integral_constant<size_t, 4>());
        case 5:
            return f(std::integral_constant<size_t, 5>());
        default:
            return f(std::integral_constant<size_t, 6>());
        }
    }

    Slot look(size_t i) const
    {
        Slot s;
        Var& x = *o[i];
        const Var& cx = x;
        const bool valueless = cx.valueless_by_exception();
        s.kind = valueless ? -1 : static_cast<int>(cx.index());
        if (valueless)
        {
            c.check(cx.index() == static_cast<INDEX>(std::variant_npos), "valueless-index", "");
        }
        else
        {
            VH_CHECK(c, s.kind >= 0 && s.kind < static_cast<int>(TYPES), "index-range", s.kind);
        }
        for (unsigned k = 0; k < TYPES; ++k)
        {
            withIndex(k, [&](auto idx) {
                constexpr INDEX I = Idx<INDEX>::at(decltype(idx)::value);
                const bool active = s.kind == static_cast<int>(k);
                auto* p = x.template get_if<I>();
                const auto* q = cx.template get_if<I>();
                const auto* p2 = zserio::get_if<I>(&x);
                const auto* q2 = zserio::get_if<I>(&cx);
                c.check((p != nullptr) == active && p == q && p2 == p && q2 == p, "get_if",
                        vh::str("alternative ", k, " of a variant holding ", s.kind, ": ", p != nullptr));
                if (!active && !c.rng.chance(15))
                {
                    return; // exceptions are slow
                }
                unsigned thrown = 0;
                const auto tryGet = [&](auto&& f) {
                    try
                    {
                        c.check(&f() == p, "get", "other object");
                    }
                    catch (const zserio::BadVariantAccess&)
                    {
                        ++thrown;
                    }
                };
                tryGet([&]() -> decltype(auto) { return x.template get<I>(); });
                tryGet([&]() -> decltype(auto) { return cx.template get<I>(); });
                tryGet([&]() -> decltype(auto) { return zserio::get<I>(x); });
                tryGet([&]() -> decltype(auto) { return zserio::get<I>(cx); });
                c.check(thrown == (active ? 0U : 4U), "wrong-alternative-access", vh::str("alternative ", k, " holding ", s.kind, ": ", thrown, " of 4 threw"));
                if (active)
                {
                    s.v = number(*p);
                }
            });
        }
        // visiting reaches the active alternative, once
        unsigned visits = 0;
        const void* seen = nullptr;
        int seenV = -100;
        bool threw = false;
        try
        {
            switch (c.rng.below(4))
            {
            case 0:
                x.visit([&](auto&& e) {
                    ++visits;
                    seen = &e;
                    seenV = number(e);
                });
                break;
            case 1:
                cx.visit([&](const auto& e) {
                    ++visits;
                    seen = &e;
                    seenV = number(e);
                });
                break;
            case 2:
                seenV = zserio::visit(
                        [&](auto&& e) {
                            ++visits;
                            seen = &e;
                            return number(e);
                        },
                        x);
                break;
            default:
                seenV = zserio::visit(
                        [&](const auto& e) {
                            ++visits;
                            seen = &e;
                            return number(e);
                        },
                        cx);
                break;
            }
        }
        catch (const zserio::BadVariantAccess&)
        {
            threw = true;
        }
        c.check(threw == valueless && visits == (valueless ? 0U : 1U) && (valueless || seenV == s.v), "visit",
                vh::str("visits ", visits, " value ", seenV, " holding ", s.text()));
        if (!valueless)
        {
            withIndex(static_cast<unsigned>(s.kind), [&](auto idx) {
                c.check(seen == cx.template get_if<Idx<INDEX>::at(decltype(idx)::value)>(), "visited-object", "");
            });
        }
        return s;
    }

    void verify(size_t i, const char* op)
    {
        const Slot s = look(i);
        VH_CHECK(c, s == m[i], std::string("value:") + op, K::name, " slot ", i, " holds ", s.text(), " expected ", m[i].text());
        VH_CHECK(c, st().error.empty(), std::string("lifetime:") + op, st().error);
    }
    void settle(size_t i, std::initializer_list<Slot> allowed, const char* op)
    {
        const Slot s = look(i);
        for (const Slot& a : allowed)
        {
            if (s == a)
            {
                m[i] = s;
                return;
            }
        }
        c.fail(std::string("value:") + op, vh::str(K::name, " slot ", i, " holds ", s.text(), " was ", m[i].text()));
    }
    static Slot val(unsigned k, int v)
    {
        Slot s;
        s.kind = static_cast<int>(k);
        s.v = v;
        return s;
    }
    void compare(size_t i, size_t j)
    {
        const Var& a = *o[i];
        const Var& b = *o[j];
        const bool eq = m[i] == m[j];
        c.check((a == b) == eq && (a != b) == !eq, "equality", m[i].text() + " " + m[j].text());
        bool lt = false;
        bool gt = false;
        if (m[i].kind == m[j].kind)
        {
            lt = m[i].kind >= 0 && m[i].v < m[j].v;
            gt = m[i].kind >= 0 && m[i].v > m[j].v;
        }
        else
        {
            lt = a.index() < b.index();
            gt = !lt;
        }
        c.check((a < b) == lt && (a > b) == gt && (a <= b) == !gt && (a >= b) == !lt, "order", m[i].text() + " " + m[j].text());
        if (m[i].kind >= 0 && m[j].kind >= 0)
        {
            c.check(!lt || m[i].kind <= m[j].kind, "index-order", "");
        }
        const size_t ha = std::hash<Var>()(a);
        const size_t hb = std::hash<Var>()(b);
        c.check(!eq || ha == hb, "hash-of-equal", m[i].text());
        if (m[i].kind >= 0)
        {
            const uint32_t want = zserio::calcHashCode(zserio::calcHashCode(zserio::HASH_SEED, static_cast<size_t>(m[i].kind)),
                    static_cast<int32_t>(m[i].v));
            VH_EQ(c, ha, size_t(want), "hash", m[i].text());
        }
    }
    template <typename F>
    bool attempt(const char* op, F&& f)
    {
        auto& r = c.rng;
        st().throwIn = r.chance(25) ? 1 + static_cast<int64_t>(r.below(3)) : -1;
        bool ok = true;
        try
        {
            f();
        }
        catch (const Boom&)
        {
            ok = false;
            c.count("planned_exceptions");
        }
        st().throwIn = -1;
        c.count(op);
        VH_CHECK(c, st().error.empty(), std::string("lifetime:") + op, st().error);
        return ok;
    }
    void failed(size_t i, const char* op)
    {
        settle(i, {m[i], Slot()}, op);
    }
    void source(size_t j, const char* op)
    {
        Slot moved = m[j];
        moved.v = MOVED;
        settle(j, {m[j], Slot(), moved}, op);
        if (m[j].kind < 0)
        {
            c.count("valueless");
        }
    }
    void replace(size_t i, std::unique_ptr<Var> n, Slot s)
    {
        o[i] = std::move(n);
        m[i] = s;
    }

    void run()
    {
        auto& r = c.rng;
        for (size_t i = 0; i < N; ++i)
        {
            const int a = K::norm(static_cast<int>(r.below(2)));
            if (r.flip())
            {
                o.push_back(std::make_unique<Var>(K::make(res, a)));
            }
            else
            {
                o.push_back(std::make_unique<Var>());
            }
            m[i] = val(0, 0);
        }
        const size_t steps = 10 + r.below(40);
        uint64_t h = 0;
        for (size_t s = 0; s < steps; ++s)
        {
            const size_t i = r.below(N);
            const size_t j = r.below(N);
            const unsigned op = static_cast<unsigned>(r.below(17));
            const unsigned k = static_cast<unsigned>(r.below(TYPES));
            const int v = static_cast<int>(r.below(10));
            const int a = K::norm(static_cast<int>(r.below(2)));
            h = vh::mix(h, op * 10000 + i * 1000 + j * 100 + k * 10 + static_cast<unsigned>(v));
            c.trace(vh::str("op", op, "(", i, ",", j, ",", v, ",", a, ") alternative ", k));
            step(op, i, j, k, v, a);
            for (size_t x = 0; x < N; ++x)
            {
                verify(x, vh::str("after-op", op).c_str());
            }
        }
        c.distinct(vh::mix(h, sizeof(INDEX) * 256 + static_cast<uint64_t>(K::name[1])));
        o.clear();
        VH_CHECK(c, st().error.empty(), "lifetime:end", st().error);
        VH_EQ(c, st().live.size(), size_t(0), "live-objects-at-end", "");
    }

    void step(unsigned op, size_t i, size_t j, unsigned k, int v, int a)
    {
        std::unique_ptr<Var> n;
        switch (op)
        {
        case 0:
        case 1:
        case 2:
        case 3:
            withIndex(k, [&](auto idx) {
                constexpr INDEX I = Idx<INDEX>::at(decltype(idx)::value);
                const void* p = nullptr;
                if (attempt("emplace", [&]() { p = &o[i]->template emplace<I>(v); }))
                {
                    m[i] = val(k, v);
                    c.check(p == o[i]->template get_if<I>(), "emplace-result", "");
                }
                else
                {
                    failed(i, "emplace");
                }
            });
            break;
        case 4:
        case 5:
            if (attempt(i == j ? "self_copy_assign" : "copy_assign", [&]() { *o[i] = std::as_const(*o[j]); }))
            {
                const Slot src = m[j];
                m[i] = src;
            }
            else
            {
                failed(i, "copy_assign");
            }
            break;
        case 6:
        case 7:
        {
            const Slot src = m[j];
            if (attempt(i == j ? "self_move_assign" : "move_assign", [&]() { *o[i] = std::move(*o[j]); }))
            {
                if (i != j)
                {
                    m[i] = src;
                    source(j, "move_assign");
                }
            }
            else
            {
                failed(i, "move_assign");
                if (i != j)
                {
                    source(j, "move_assign");
                }
            }
            break;
        }
        case 8:
        case 9:
        {
            const Slot mi = m[i];
            const Slot mj = m[j];
            if (attempt("swap", [&]() { o[i]->swap(*o[j]); }))
            {
                m[i] = mj;
                m[j] = mi;
            }
            else
            {
                for (const size_t q : {i, j})
                {
                    settle(q, {mi, mj, Slot()}, "swap");
                }
            }
            break;
        }
        case 10:
            if (attempt("copy", [&]() { n = std::make_unique<Var>(std::as_const(*o[j])); }))
            {
                replace(i, std::move(n), m[j]);
            }
            break;
        case 11:
            if (attempt("copy_alloc", [&]() { n = std::make_unique<Var>(std::as_const(*o[j]), K::make(res, a)); }))
            {
                replace(i, std::move(n), m[j]);
            }
            break;
        case 12:
        case 13:
        {
            const Slot s = m[j];
            const bool ok = attempt(op == 12 ? "move" : "move_alloc", [&]() {
                n = op == 12 ? std::make_unique<Var>(std::move(*o[j])) : std::make_unique<Var>(std::move(*o[j]), K::make(res, a));
            });
            source(j, "move");
            if (ok)
            {
                replace(i, std::move(n), s);
            }
            break;
        }
        case 14:
        case 15:
            withIndex(k, [&](auto idx) {
                constexpr INDEX I = Idx<INDEX>::at(decltype(idx)::value);
                if (attempt("construct", [&]() {
                        n = op == 14 ? std::make_unique<Var>(zserio::in_place_index<I>, K::make(res, a), v)
                                     : std::make_unique<Var>(zserio::in_place_index<I>, v);
                    }))
                {
                    replace(i, std::move(n), val(k, v));
                }
            });
            break;
        default:
            for (size_t x = 0; x < N; ++x)
            {
                for (size_t y = 0; y < N; ++y)
                {
                    compare(x, y);
                }
            }
            c.count("comparisons");
            break;
        }
        st().throwIn = -1;
    }
};

template <typename A, typename INDEX>
void history(vh::Case& c)
{
    c.trace(Kit<A>::name);
    Resources res;
    {
        Runner<A, INDEX> r{c, res, {}, {}};
        r.run();
    }
    c.count("allocations", res.r0.total() + res.r1.total() + res.def.total());
    VH_CHECK(c, st().error.empty(), "lifetime:end", st().error);
    VH_EQ(c, res.r0.live() + res.r1.live() + res.def.live(), size_t(0), "blocks-at-end", "");
    if (c.wantSample())
    {
        c.sample(c.traceText().substr(0, 300));
    }
}

// a variant which holds others of the same type
struct Tree;
struct Kids
{
    std::vector<Tree> v;
};
struct Tree
{
    zserio::Variant<size_t, Tracked<0>, Tracked<100>, Kids> var;
};

} // namespace

VH_SECTION(histories, 6 * 500, 6 * 90000)
{
    switch (c.idx % 6)
    {
    case 0:
        return history<StdA, Tag>(c);
    case 1:
        return history<PmrA, Tag>(c);
    case 2:
        return history<PpmrA, Tag>(c);
    case 3:
        return history<StdA, size_t>(c);
    case 4:
        return history<PmrA, size_t>(c);
    default:
        return history<PpmrA, size_t>(c);
    }
}

VH_SECTION(parts, 2000, 60000)
{
    auto& r = c.rng;
    Resources res;
    {
        Tree t;
        Kids& kids = t.var.emplace<2>();
        const size_t n = 1 + r.below(4);
        for (size_t i = 0; i < n; ++i)
        {
            kids.v.emplace_back();
            if (r.flip())
            {
                kids.v.back().var.emplace<0>(static_cast<int>(i));
            }
            else
            {
                kids.v.back().var.emplace<1>(static_cast<int>(i));
            }
        }
        const size_t k = r.below(n);
        const unsigned op = static_cast<unsigned>(r.below(3));
        c.trace(vh::str("op", op, " ", k, " of ", n));
        const auto num = [](const Tree& x) {
            return x.var.index() == 0 ? x.var.get<0>().v() : (x.var.index() == 1 ? x.var.get<1>().v() : -5);
        };
        switch (op)
        {
        case 0:
            t.var = std::as_const(kids.v[k].var);
            VH_EQ(c, num(t), static_cast<int>(k), "part-copy", "");
            break;
        case 1:
            t.var = std::move(kids.v[k].var);
            VH_EQ(c, num(t), static_cast<int>(k), "part-move", "");
            break;
        default:
            kids.v[k].var = std::as_const(t.var);
            VH_EQ(c, t.var.get<2>().v.size(), n, "whole-into-part", "");
            VH_EQ(c, t.var.get<2>().v[k].var.get<2>().v.size(), n, "whole-into-part", "");
            break;
        }
        c.count("operations");
        c.distinct(vh::mix(op * 100 + n * 10 + k, r.next() % 4));
        VH_CHECK(c, st().error.empty(), "lifetime", st().error);
    }
    VH_EQ(c, st().live.size(), size_t(0), "live-objects-at-end", "");
    VH_CHECK(c, st().error.empty(), "lifetime", st().error);
}
