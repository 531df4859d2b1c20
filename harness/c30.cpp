// C30: spans against the memory they were made from
#include <array>
#include <list>

#include "vh.h"
#include "zserio/Span.h"

namespace
{

struct Wide
{
    uint64_t a = 0;
    uint32_t b = 0;
    Wide() = default;
    explicit Wide(uint64_t v) :
            a(v),
            b(static_cast<uint32_t>(v * 7))
    {}
    bool operator==(const Wide& o) const
    {
        return a == o.a && b == o.b;
    }
};

template <typename T>
T mk(uint64_t v)
{
    return static_cast<T>(v);
}

template <typename T>
struct Ctx
{
    vh::Case& c;
    std::vector<T>& mem;    // all elements
    std::vector<T> shadow;  // what they have to be
    uint64_t next = 1000;
};

// the span has to designate elements from..from+n of the memory, tried by every accessor
template <typename T, typename S>
void same(Ctx<T>& x, const S& s, size_t from, size_t n, const char* what)
{
    auto& c = x.c;
    const T* base = x.mem.data();
    VH_EQ(c, s.size(), n, std::string("size:") + what, "");
    VH_EQ(c, s.size_bytes(), n * sizeof(T), std::string("size_bytes:") + what, "");
    c.check(s.empty() == (n == 0), "empty", what);
    if (S::extent != zserio::dynamic_extent)
    {
        VH_EQ(c, size_t(S::extent), n, "extent", what);
    }
    if (n > 0 || base != nullptr)
    {
        c.check(n == 0 || s.data() == base + from, "data", what);
    }
    size_t k = 0;
    for (auto it = s.begin(); it != s.end(); ++it, ++k)
    {
        c.check(k < n && &*it == base + from + k, "iterate", what);
    }
    VH_EQ(c, k, n, "iterations", what);
    c.check(static_cast<size_t>(s.end() - s.begin()) == n, "end", what);
    k = 0;
    for (auto it = s.rbegin(); it != s.rend(); ++it, ++k)
    {
        c.check(k < n && &*it == base + from + n - 1 - k, "reverse", what);
    }
    VH_EQ(c, k, n, "reverse-iterations", what);
    for (size_t i = 0; i < n; ++i)
    {
        c.check(&s[i] == base + from + i && s[i] == x.shadow[from + i], "index", what);
    }
    if (n > 0)
    {
        c.check(&s.front() == base + from && &s.back() == base + from + n - 1, "front-back", what);
        if constexpr (!std::is_const_v<typename S::element_type>)
        {
            // a write reaches this element and no other
            const size_t i = c.rng.below(n);
            const T v = mk<T>(x.next += 3);
            switch (c.rng.below(4))
            {
            case 0:
                s[i] = v;
                break;
            case 1:
                *(s.begin() + static_cast<std::ptrdiff_t>(i)) = v;
                break;
            case 2:
                *(s.rend() - 1 - static_cast<std::ptrdiff_t>(i)) = v;
                break;
            default:
                s.data()[i] = v;
                break;
            }
            x.shadow[from + i] = v;
            c.count("writes");
        }
        c.check(x.mem == x.shadow, "stray-write", what);
    }
    c.count("spans");
}

// every static extent up to 8 of a span known to hold n elements
template <size_t C, typename T, typename S>
void staticParts(Ctx<T>& x, const S& s, size_t from, size_t n)
{
    if constexpr (C <= S::extent)
    {
        if (C <= n)
        {
            same<T>(x, s.template first<C>(), from, C, "first<>");
            same<T>(x, s.template last<C>(), from + n - C, C, "last<>");
            same<T>(x, s.template subspan<C>(), from + C, n - C, "subspan<o>");
            // a span of static extent made from the dynamic parts
            zserio::Span<typename S::element_type, C> st(s.data(), C);
            same<T>(x, st, from, C, "static(ptr,n)");
            zserio::Span<typename S::element_type, C> st2(s.data(), s.data() + C);
            same<T>(x, st2, from, C, "static(ptr,ptr)");
            zserio::Span<const T, C> cst(st);
            same<T>(x, cst, from, C, "const static");
            zserio::Span<const T> dyn(st);
            same<T>(x, dyn, from, C, "dynamic of static");
            if constexpr (C >= 1)
            {
                if constexpr (S::extent == zserio::dynamic_extent || 1 + C - 1 <= S::extent)
                {
                    same<T>(x, s.template subspan<1, C - 1>(), from + 1, C - 1, "subspan<1,c>");
                }
            }
            if constexpr (S::extent == zserio::dynamic_extent || 2 * (C / 2) <= S::extent)
            {
                same<T>(x, s.template subspan<C / 2, C / 2>(), from + C / 2, C / 2, "subspan<h,h>");
            }
        }
    }
    if constexpr (C > 0)
    {
        staticParts<C - 1>(x, s, from, n);
    }
}

template <typename T, typename S>
void parts(Ctx<T>& x, const S& s, size_t from, size_t n, unsigned depth)
{
    auto& r = x.c.rng;
    same<T>(x, s, from, n, "span");
    const size_t a = r.below(n + 1);
    const size_t b = r.below(n - a + 1);
    same<T>(x, s.first(a), from, a, "first");
    same<T>(x, s.last(a), from + n - a, a, "last");
    same<T>(x, s.subspan(a), from + a, n - a, "subspan(o)");
    same<T>(x, s.subspan(a, b), from + a, b, "subspan(o,n)");
    staticParts<8, T>(x, s, from, n);
    S copy(s);
    same<T>(x, copy, from, n, "copy");
    S moved(std::move(copy));
    same<T>(x, moved, from, n, "move");
    S assigned(s.data(), n);
    assigned = moved;
    same<T>(x, assigned, from, n, "assign");
    if (depth > 0)
    {
        parts<T>(x, s.subspan(a, b), from + a, b, depth - 1);
        parts<T>(x, s.first(a), from, a, depth - 1);
        if constexpr (!std::is_const_v<typename S::element_type>)
        {
            parts<T>(x, zserio::Span<const T>(s.last(a)), from + n - a, a, depth - 1);
        }
    }
}

template <typename T, size_t N>
void arrays(vh::Case& c)
{
    // a copy of the memory of a built-in array and std::array is compared by a proxy vector
    auto& r = c.rng;
    {
        struct
        {
            T before[2];
            T arr[N];
            T after[2];
        } box;
        const auto fill = [&](T* p, size_t n) {
            for (size_t i = 0; i < n; ++i)
            {
                p[i] = mk<T>(r.next());
            }
        };
        fill(box.before, 2);
        fill(box.arr, N);
        fill(box.after, 2);
        std::vector<T> old(box.arr, box.arr + N);
        zserio::Span<T> d(box.arr);
        zserio::Span<T, N> s(box.arr);
        zserio::Span<const T> cd(box.arr);
        zserio::Span<const T, N> cs(box.arr);
        c.check(d.data() == box.arr && s.data() == box.arr && cd.data() == box.arr && cs.data() == box.arr, "array-data", "");
        c.check(d.size() == N && s.size() == N && cd.size() == N && cs.size() == N, "array-size", "");
        c.check(std::equal(d.begin(), d.end(), old.begin()) && std::equal(cs.begin(), cs.end(), old.begin()), "array-elements", "");
        c.check(std::equal(s.rbegin(), s.rend(), old.rbegin()), "array-reverse", "");
        const size_t i = r.below(N);
        s[i] = mk<T>(12345);
        old[i] = mk<T>(12345);
        c.check(std::equal(old.begin(), old.end(), box.arr), "array-write", "");
        auto l = s.template last<N / 2>();
        c.check(l.data() == box.arr + (N - N / 2) && l.size() == N / 2, "array-last", "");
        auto f = s.template subspan<N / 3, N / 2>();
        c.check(f.data() == box.arr + N / 3 && f.size() == N / 2, "array-subspan", "");
        auto g = s.template subspan<N / 3>();
        c.check(g.data() == box.arr + N / 3 && g.size() == N - N / 3 && decltype(g)::extent == N - N / 3, "array-subspan-rest", "");
    }
    {
        std::array<T, N> a;
        for (auto& e : a)
        {
            e = mk<T>(r.next());
        }
        const std::array<T, N>& ca = a;
        zserio::Span<T> d(a);
        zserio::Span<T, N> s(a);
        zserio::Span<const T> cd(ca);
        zserio::Span<const T, N> cs(ca);
        zserio::Span<const T> cd2(a);
        c.check(d.data() == a.data() && s.data() == a.data() && cd.data() == a.data() && cs.data() == a.data() && cd2.data() == a.data(),
                "std-array-data", "");
        c.check(d.size() == N && s.size() == N && cd.size() == N && cs.size() == N && cd2.size() == N, "std-array-size", "");
        d[N - 1] = mk<T>(77);
        c.check(a[N - 1] == mk<T>(77) && cs.back() == mk<T>(77), "std-array-write", "");
    }
    c.count("arrays");
}

template <typename T>
void vectors(vh::Case& c)
{
    auto& r = c.rng;
    const size_t n = r.chance(10) ? r.below(3) : r.below(40);
    std::vector<T> mem;
    for (size_t i = 0; i < n; ++i)
    {
        mem.push_back(mk<T>(r.next()));
    }
    mem.shrink_to_fit();
    Ctx<T> x{c, mem, mem};
    c.trace(vh::str("vector of ", n, " elements of ", sizeof(T), " bytes"));
    const size_t from = r.below(n + 1);
    const size_t len = r.below(n - from + 1);
    const std::vector<T>& cmem = mem;
    parts<T>(x, zserio::Span<T>(mem), 0, n, 2);
    parts<T>(x, zserio::Span<const T>(cmem), 0, n, 1);
    parts<T>(x, zserio::Span<const T>(mem), 0, n, 1);
    parts<T>(x, zserio::Span<T>(mem.data() + from, len), from, len, 1);
    parts<T>(x, zserio::Span<T>(mem.data() + from, mem.data() + from + len), from, len, 1);
    zserio::Span<T> none;
    c.check(none.empty() && none.size() == 0 && none.begin() == none.end() && none.rbegin() == none.rend() && none.size_bytes() == 0, "default", "");
    zserio::Span<T, 0> none0;
    c.check(none0.empty() && none0.begin() == none0.end(), "default-static", "");
    none = zserio::Span<T>(mem);
    same<T>(x, none, 0, n, "assigned-default");
    if (n >= 8)
    {
        const zserio::Span<T, 8> s8(mem.data() + (n - 8), 8);
        parts<T>(x, s8, n - 8, 8, 1);
    }
    arrays<T, 1>(c);
    arrays<T, 5>(c);
    arrays<T, 16>(c);
    c.distinct(vh::mix(vh::mix(n * 64 + from, len), sizeof(T)));
    if (c.wantSample())
    {
        c.sample(vh::str(n, " elements of ", sizeof(T), " bytes, part ", from, "+", len));
    }
}

} // namespace

VH_SECTION(spans, 2500, 250000)
{
    switch (c.idx % 5)
    {
    case 0:
        return vectors<uint8_t>(c);
    case 1:
        return vectors<int16_t>(c);
    case 2:
        return vectors<uint32_t>(c);
    case 3:
        return vectors<double>(c);
    default:
        return vectors<Wide>(c);
    }
}
