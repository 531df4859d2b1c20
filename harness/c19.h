// Walker: a reference walk over the tree of expected values (c18.h) against the calls observed from the real walker.
#pragma once
#include <regex>

#include "c18.h"
#include "zserio/Walker.h"

namespace c19
{

template <typename A>
using Tree = c18::E<A>;
constexpr size_t NOT = zserio::WALKER_NOT_ELEMENT;

// reference filters: decided from the position of the node alone (or from a fixed stream of decisions)
template <typename A>
struct Pos
{
    const Tree<A>* e;
    std::string name; // field name
    size_t idx; // NOT or the index of an element
    size_t level; // enclosing arrays and compounds, without the root
    size_t id; // number of the node in the tree
};

template <typename A>
struct Model
{
    virtual ~Model() = default;
    virtual bool before(const Pos<A>& p) = 0;
    virtual bool after(const Pos<A>&)
    {
        return true;
    }
};

// the log of calls: o... observer, f<n>... filter number n
struct Log
{
    std::vector<std::string> lines;
    void add(const char* what, std::string_view name, size_t idx, int result)
    {
        std::string s(what);
        s += ' ';
        s += name;
        if (idx != NOT)
        {
            s += '[';
            s += std::to_string(idx);
            s += ']';
        }
        if (result >= 0)
        {
            s += result != 0 ? " yes" : " no";
        }
        lines.push_back(std::move(s));
    }
};

template <typename A>
using Nodes = std::vector<std::pair<const Tree<A>*, std::string>>;
template <typename A>
struct RefWalk
{
    const Tree<A>& root;
    Model<A>& filter;
    Log& log;
    bool logFilter;
    Nodes<A>& nodes; // node of every observer event

    void obs(const char* what, const Pos<A>& p)
    {
        log.add(what, p.name, p.idx, -1);
        nodes.emplace_back(p.e, log.lines.back());
    }
    bool ask(const char* what, bool before, const Pos<A>& p)
    {
        const bool r = before ? filter.before(p) : filter.after(p);
        if (logFilter)
        {
            log.add(what, p.name, p.idx, r ? 1 : 0);
        }
        return r;
    }
    static size_t count(const Tree<A>& e)
    {
        size_t n = 1;
        for (const auto& k : e.kids)
        {
            n += count(k);
        }
        return n;
    }
    void run()
    {
        const Pos<A> p{&root, "", NOT, 0, 0};
        obs("o:root", p);
        fields(root, 0, 0);
        obs("o:end-root", p);
    }
    void fields(const Tree<A>& e, size_t level, size_t id)
    {
        size_t kid = id + 1;
        for (const auto& k : e.kids)
        {
            const size_t me = kid;
            kid += count(k);
            if (k.unset)
            {
                continue;
            }
            if (!field(k, k.name, NOT, level, me) && e.kind != Tree<A>::CHOICE)
            {
                return;
            }
        }
    }
    // level: enclosing levels of the node
    bool field(const Tree<A>& e, const std::string& name, size_t idx, size_t level, size_t id)
    {
        const Pos<A> p{&e, name, idx, level, id};
        switch (e.kind)
        {
        case Tree<A>::ARR:
            if (ask("f:before-array", true, p))
            {
                obs("o:array", p);
                size_t kid = id + 1;
                for (size_t i = 0; i < e.kids.size(); ++i)
                {
                    const size_t me = kid;
                    kid += count(e.kids[i]);
                    if (!field(e.kids[i], name, i, level + 1, me))
                    {
                        break;
                    }
                }
                obs("o:end-array", p);
            }
            return ask("f:after-array", false, p);
        case Tree<A>::OBJ:
        case Tree<A>::CHOICE:
            if (ask("f:before-compound", true, p))
            {
                obs("o:compound", p);
                fields(e, level + 1, id);
                obs("o:end-compound", p);
            }
            return ask("f:after-compound", false, p);
        default:
            if (ask("f:before-value", true, p))
            {
                obs(e.kind == Tree<A>::NUL ? "o:null" : "o:value", p);
            }
            return ask("f:after-value", false, p);
        }
    }
};

template <typename A>
struct All : Model<A>
{
    bool before(const Pos<A>&) override
    {
        return true;
    }
};
template <typename A>
struct Depth : Model<A>
{
    size_t max;
    explicit Depth(size_t m) : max(m)
    {}
    bool before(const Pos<A>& p) override
    {
        return p.level < max;
    }
};
template <typename A>
struct Length : Model<A>
{
    size_t max;
    explicit Length(size_t m) : max(m)
    {}
    bool before(const Pos<A>& p) override
    {
        return p.idx == NOT || p.idx < max;
    }
    bool after(const Pos<A>& p) override
    {
        return before(p);
    }
};
// every node has a path: it is walked when its path or the path of anything inside of it matches
template <typename A>
struct Paths
{
    std::vector<std::string> path; // by node number; empty for the root and not selected branches
    std::vector<size_t> end; // one behind the last node inside
    std::vector<char> arr;

    explicit Paths(const Tree<A>& root)
    {
        add(root, "", false);
    }
    void add(const Tree<A>& e, const std::string& p, bool skip)
    {
        const size_t me = path.size();
        path.push_back(skip ? std::string() : p);
        arr.push_back(e.kind == Tree<A>::ARR);
        end.push_back(0);
        for (size_t i = 0; i < e.kids.size(); ++i)
        {
            const Tree<A>& k = e.kids[i];
            add(k, e.kind == Tree<A>::ARR ? p + "[" + std::to_string(i) + "]" : (p.empty() ? k.name : p + "." + k.name), skip || k.unset);
        }
        end[me] = path.size();
    }
};
template <typename A>
struct Regex : Model<A>
{
    std::vector<char> admitted;
    Regex(const Paths<A>& paths, const std::string& text)
    {
        const std::regex re(text);
        std::vector<char> match;
        for (const std::string& p : paths.path)
        {
            match.push_back(!p.empty() && std::regex_match(p, re) ? 1 : 0);
        }
        for (size_t i = 0; i < match.size(); ++i)
        {
            char any = 0;
            for (size_t j = i; j < paths.end[i]; ++j)
            {
                any |= match[j];
            }
            admitted.push_back(any);
        }
    }
    bool before(const Pos<A>& p) override
    {
        return admitted.at(p.id) != 0;
    }
};
struct Decisions
{
    uint64_t seed;
    unsigned percentBefore;
    unsigned percentAfter;
    uint64_t calls = 0;
    bool next(bool before)
    {
        ++calls;
        return vh::mix(seed, calls) % 100 < (before ? percentBefore : percentAfter);
    }
};
template <typename A>
struct Random : Model<A>
{
    Decisions d;
    explicit Random(Decisions x) : d(x)
    {}
    bool before(const Pos<A>&) override
    {
        return d.next(true);
    }
    bool after(const Pos<A>&) override
    {
        return d.next(false);
    }
};
template <typename A>
struct And : Model<A>
{
    std::vector<Model<A>*> parts;
    bool before(const Pos<A>& p) override
    {
        bool r = true;
        for (auto* m : parts)
        {
            const bool x = m->before(p);
            r = r && x;
        }
        return r;
    }
    bool after(const Pos<A>& p) override
    {
        bool r = true;
        for (auto* m : parts)
        {
            const bool x = m->after(p);
            r = r && x;
        }
        return r;
    }
};

// real filters -------------------------------------------------------------------------------------------------------
template <typename A>
using Ptr = zserio::IBasicReflectableDataConstPtr<A>;
template <typename A>
using Info = zserio::BasicFieldInfo<A>;

template <typename A>
struct RandomFilter : zserio::IBasicWalkFilter<A>
{
    Decisions d;
    explicit RandomFilter(Decisions x) : d(x)
    {}
    bool beforeArray(const Ptr<A>&, const Info<A>&) override
    {
        return d.next(true);
    }
    bool afterArray(const Ptr<A>&, const Info<A>&) override
    {
        return d.next(false);
    }
    bool beforeCompound(const Ptr<A>&, const Info<A>&, size_t) override
    {
        return d.next(true);
    }
    bool afterCompound(const Ptr<A>&, const Info<A>&, size_t) override
    {
        return d.next(false);
    }
    bool beforeValue(const Ptr<A>&, const Info<A>&, size_t) override
    {
        return d.next(true);
    }
    bool afterValue(const Ptr<A>&, const Info<A>&, size_t) override
    {
        return d.next(false);
    }
};
template <typename A>
struct LogFilter : zserio::IBasicWalkFilter<A>
{
    zserio::IBasicWalkFilter<A>& f;
    Log& log;
    LogFilter(zserio::IBasicWalkFilter<A>& x, Log& l) : f(x), log(l)
    {}
    bool put(const char* what, const Info<A>& info, size_t idx, bool r)
    {
        log.add(what, info.schemaName, idx, r ? 1 : 0);
        return r;
    }
    bool beforeArray(const Ptr<A>& p, const Info<A>& i) override
    {
        return put("f:before-array", i, NOT, f.beforeArray(p, i));
    }
    bool afterArray(const Ptr<A>& p, const Info<A>& i) override
    {
        return put("f:after-array", i, NOT, f.afterArray(p, i));
    }
    bool beforeCompound(const Ptr<A>& p, const Info<A>& i, size_t n) override
    {
        return put("f:before-compound", i, n, f.beforeCompound(p, i, n));
    }
    bool afterCompound(const Ptr<A>& p, const Info<A>& i, size_t n) override
    {
        return put("f:after-compound", i, n, f.afterCompound(p, i, n));
    }
    bool beforeValue(const Ptr<A>& p, const Info<A>& i, size_t n) override
    {
        return put("f:before-value", i, n, f.beforeValue(p, i, n));
    }
    bool afterValue(const Ptr<A>& p, const Info<A>& i, size_t n) override
    {
        return put("f:after-value", i, n, f.afterValue(p, i, n));
    }
};

struct Halt
{};
// checks that every handle is the expected node and logs the calls
template <typename A>
struct Observer : zserio::IBasicWalkObserver<A>
{
    vh::Case& c;
    Log& log;
    const Nodes<A>& nodes;
    size_t haltAt = static_cast<size_t>(-1);
    size_t n = 0;
    bool lost = false;
    Observer(vh::Case& x, Log& l, const Nodes<A>& ns) : c(x), log(l), nodes(ns)
    {}
    void put(const char* what, const Ptr<A>& p, const Info<A>* info, size_t idx)
    {
        const std::string_view name = info != nullptr ? std::string_view(info->schemaName) : std::string_view();
        log.add(what, name, idx, -1);
        if (lost || n >= nodes.size() || nodes[n].second != log.lines.back())
        {
            lost = true; // reported by the comparison of the logs
            return;
        }
        const Tree<A>& e = *nodes[n].first;
        if (n++ == haltAt)
        {
            throw Halt();
        }
        c.eval();
        if (!p)
        {
            if (e.kind != Tree<A>::NUL)
            {
                c.fail("handle/null", vh::str(what, " ", std::string(name)));
            }
            return;
        }
        if (e.kind == Tree<A>::NUL || (info != nullptr && &info->typeInfo != e.ti) || &p->getTypeInfo() != e.ti ||
                p->isArray() != (e.kind == Tree<A>::ARR) || (info != nullptr && e.kind == Tree<A>::ARR && !info->isArray) ||
                (info != nullptr && idx != NOT && !info->isArray))
        {
            lost = true;
            c.fail("handle/type", vh::str(what, " ", std::string(name)));
            return;
        }
        if (!e.anyOk(p->getAnyValue(), e.addr, false))
        {
            lost = true;
            c.fail("handle/value", vh::str(what, " ", std::string(name), ": the handle is not to the field being walked"));
        }
    }
    void beginRoot(const Ptr<A>& p) override
    {
        put("o:root", p, nullptr, NOT);
    }
    void endRoot(const Ptr<A>& p) override
    {
        put("o:end-root", p, nullptr, NOT);
    }
    void beginArray(const Ptr<A>& p, const Info<A>& i) override
    {
        put("o:array", p, &i, NOT);
    }
    void endArray(const Ptr<A>& p, const Info<A>& i) override
    {
        put("o:end-array", p, &i, NOT);
    }
    void beginCompound(const Ptr<A>& p, const Info<A>& i, size_t idx) override
    {
        put("o:compound", p, &i, idx);
    }
    void endCompound(const Ptr<A>& p, const Info<A>& i, size_t idx) override
    {
        put("o:end-compound", p, &i, idx);
    }
    void visitValue(const Ptr<A>& p, const Info<A>& i, size_t idx) override
    {
        put(p ? "o:value" : "o:null", p, &i, idx);
    }
};

template <typename A>
void compare(vh::Case& c, const char* key, const std::string& what, const Log& got, const Log& want)
{
    c.eval();
    if (got.lines == want.lines)
    {
        return;
    }
    size_t i = 0;
    while (i < got.lines.size() && i < want.lines.size() && got.lines[i] == want.lines[i])
    {
        ++i;
    }
    c.fail(std::string("walk/") + key,
            vh::str(what, ": call ", i, " is '", i < got.lines.size() ? got.lines[i] : "missing", "' expected '",
                    i < want.lines.size() ? want.lines[i] : "nothing", "' after '", i > 0 ? want.lines[i - 1] : "", "'"));
}

std::string makeRegex(vh::Rng& r, const std::vector<std::string>& paths);

template <typename A>
struct Pair
{
    std::string what;
    std::unique_ptr<Model<A>> model;
    std::shared_ptr<zserio::IBasicWalkFilter<A>> real;
    std::vector<Pair> parts;
    bool stateless = true; // same decisions in every walk
};
template <typename A>
Pair<A> makeFilter(vh::Rng& r, const Tree<A>& root, const Paths<A>& paths, const A& al, int nest)
{
    Pair<A> f;
    const size_t k = r.below(nest > 1 ? 8 : 10);
    if (k == 0)
    {
        f.what = "default";
        f.model = std::make_unique<All<A>>();
        f.real = std::make_shared<zserio::BasicDefaultWalkFilter<A>>();
    }
    else if (k <= 2)
    {
        const size_t max = r.chance(5) ? static_cast<size_t>(-1) : r.below(6);
        f.what = vh::str("depth ", max);
        f.model = std::make_unique<Depth<A>>(max);
        f.real = std::make_shared<zserio::BasicDepthWalkFilter<A>>(max);
    }
    else if (k <= 4)
    {
        const size_t max = r.chance(5) ? static_cast<size_t>(-2) : r.below(4);
        f.what = vh::str("array length ", max);
        f.model = std::make_unique<Length<A>>(max);
        f.real = std::make_shared<zserio::BasicArrayLengthWalkFilter<A>>(max);
    }
    else if (k <= 6)
    {
        const std::string re = makeRegex(r, paths.path);
        f.what = "regex " + re;
        f.model = std::make_unique<Regex<A>>(paths, re);
        f.real = std::make_shared<zserio::BasicRegexWalkFilter<A>>(re.c_str(), al);
    }
    else if (k == 7)
    {
        const Decisions d{r.ubits(64), static_cast<unsigned>(r.range(40, 100)), static_cast<unsigned>(r.range(60, 100))};
        f.what = "random";
        f.model = std::make_unique<Random<A>>(d);
        f.real = std::make_shared<RandomFilter<A>>(d);
        f.stateless = false;
    }
    else
    {
        const size_t n = r.below(4);
        f.what = "and(";
        auto model = std::make_unique<And<A>>();
        using Real = zserio::BasicAndWalkFilter<A>;
        typename Real::WalkFilters refs{zserio::RebindAlloc<A, typename Real::WalkFilterRef>(al)};
        for (size_t i = 0; i < n; ++i)
        {
            f.parts.push_back(makeFilter<A>(r, root, paths, al, nest + 1));
            f.what += f.parts.back().what + ",";
            model->parts.push_back(f.parts.back().model.get());
            refs.push_back(std::ref(*f.parts.back().real));
            f.stateless = f.stateless && f.parts.back().stateless;
        }
        f.what += ")";
        f.model = std::move(model);
        f.real = std::make_shared<Real>(refs);
    }
    return f;
}

template <typename A>
void walkTree(vh::Case& c, const Ptr<A>& root, const Tree<A>& e, const A& al)
{
    vh::Rng& r = c.rng;
    const Paths<A> paths(e);
    {
        // without a filter
        All<A> all;
        Log want;
        Nodes<A> nodes;
        RefWalk<A>{e, all, want, false, nodes}.run();
        Log got;
        Observer<A> o(c, got, nodes);
        zserio::BasicWalker<A> w(o);
        w.walk(root);
        compare<A>(c, "unfiltered", "no filter", got, want);
        c.count("events", want.lines.size());
        std::string all2;
        for (const auto& l : want.lines)
        {
            all2 += l;
            all2 += ';';
        }
        c.distinct(vh::hashStr(all2));
    }
    const size_t filters = 3;
    for (size_t i = 0; i < filters; ++i)
    {
        Pair<A> f = makeFilter<A>(r, e, paths, al, 0);
        // the same filter is used for several walks
        const size_t walks = 1 + r.below(3);
        bool halted = false;
        for (size_t k = 0; k < walks && !halted; ++k)
        {
            const bool logFilter = r.flip();
            Log want;
            Nodes<A> nodes;
            RefWalk<A>{e, *f.model, want, logFilter, nodes}.run();
            Log got;
            Observer<A> o(c, got, nodes);
            LogFilter<A> lf(*f.real, got);
            zserio::BasicWalker<A> w(o, logFilter ? static_cast<zserio::IBasicWalkFilter<A>&>(lf) : *f.real);
            if (r.chance(4))
            {
                o.haltAt = r.below(nodes.size());
            }
            try
            {
                w.walk(root);
            }
            catch (const Halt&)
            {
                halted = true;
                c.count("observer_threw");
                want.lines.resize(std::min(want.lines.size(), got.lines.size()));
            }
            c.check(halted == (o.haltAt != static_cast<size_t>(-1)), "walk/exception", f.what);
            compare<A>(c, "filtered", f.what + vh::str(" walk ", k), got, want);
            c.count("walks");
            c.count(logFilter ? "with_filter_calls" : "observer_calls_only");
            const std::string kind = f.what.substr(0, f.what.find_first_of(" ("));
            c.count(("filter_" + kind).c_str());
            c.count(nodes.size() == 2 ? "nothing_walked" : "something_walked");
            c.count("filtered_events", want.lines.size());
        }
    }
}

template <typename A>
void refusals(vh::Case& c, const A& al)
{
    Nodes<A> nodes;
    Log log;
    Observer<A> o(c, log, nodes);
    zserio::BasicWalker<A> w(o);
    c.check(c18::throwsRuntime([&]() { w.walk(nullptr); }), "refused/null", "no error");
    const zserio::UInt8 leaf = 5;
    c.check(c18::throwsRuntime([&]() { w.walk(zserio::reflectable(leaf, al)); }), "refused/leaf", "no error");
    c.check(log.lines.empty(), "refused/observed", "observer was called for a refused root");
    c.count("refusals");
}

} // namespace c19
