// included with TOBJ_NS and C18_FN defined
#include "c18_gen.inc"

namespace c18
{
// mutable handles give references to the data itself
static void checkMutable(Look& l, Refl& h, const Exp& e)
{
    const auto any = h.getAnyValue();
    ok(l.c, e.anyOk(any, e.addr, true), l.what + "/mutable-any-value", l.path);
    if (e.kind == Exp::LEAF)
    {
        return;
    }
    const std::string save = l.path;
    for (size_t i = 0; i < e.kids.size(); ++i)
    {
        const Exp& k = e.kids[i];
        if (k.unset || (e.kids.size() > 12 && l.c.rng.chance(50)))
        {
            continue;
        }
        l.path = save + "/" + k.name;
        const auto p = e.kind == Exp::ARR ? (l.c.rng.flip() ? h.at(i) : h[i])
                                          : (l.c.rng.flip() ? h.getField(k.name) : (l.c.rng.flip() ? h.find(k.name) : h[std::string_view(k.name)]));
        ok(l.c, (p == nullptr) == (k.kind == Exp::NUL), l.what + "/mutable-null", l.path);
        if (p && k.kind != Exp::NUL)
        {
            checkMutable(l, *p, k);
        }
    }
    l.path = save;
}

static std::string digest(const Exp& e)
{
    std::string d;
    e.digest(d);
    return d;
}

// handles to constant data refuse every change
static void checkConst(vh::Case& c, const zserio::IBasicReflectableDataConstPtr<AL>& h, const Exp& e, Mut<AL>& m)
{
    const auto p = std::const_pointer_cast<Refl>(h);
    m.constHandle(*p, e.kids.empty() ? "value" : e.kids[c.rng.below(e.kids.size())].name);
    if (e.kids.empty())
    {
        return;
    }
    const size_t i = c.rng.below(e.kids.size());
    if (e.kids[i].unset || e.kids[i].kind == Exp::NUL || e.kids[i].kind == Exp::LEAF)
    {
        return;
    }
    checkConst(c, e.kind == Exp::ARR ? h->at(i) : h->getField(e.kids[i].name), e.kids[i], m);
}

static Mut<AL> makeMut(vh::Case& c, const char* what)
{
    return Mut<AL>{c, AL(), [&c, what](const char* key, const std::string& detail) { c.fail(vh::str(what, "/", key), detail); }, {}};
}

template <typename T>
static void reflectOne(vh::Case& c, T& obj, bool deep)
{
    const Exp e = expect<AL>(obj);
    const std::string before = digest(e);
    c.distinct(vh::hashStr(before));
    const T& cobj = obj;
    const auto ch = zserio::reflectable(cobj, AL());
    const auto mh = zserio::reflectable(obj, AL());
    Look l{c, "const", deep, ""};
    check<AL>(l, *ch, e);
    checkPaths<AL>(l, *ch, e, "");
    l.what = "mutable-as-const";
    l.path.clear();
    check<AL>(l, static_cast<const Refl&>(*mh), e);
    l.what = "mutable";
    l.path.clear();
    checkMutable(l, *mh, e);
    checkPaths<AL>(l, *mh, e, "");
    if (deep)
    {
        Mut<AL> m = makeMut(c, "const-handle");
        for (int i = 0; i < 3; ++i)
        {
            checkConst(c, ch, e, m);
        }
    }
    c.check(zserio::ReflectableUtil::equal<AL>(ch, mh), "equal/itself", "object differs from itself");
    c.check(&zserio::ReflectableUtil::getValue<T, AL>(ch) == &obj, "get-value/const", "another object");
    c.check(&zserio::ReflectableUtil::getValue<T, AL>(mh) == &obj, "get-value/mutable", "another object");
    c.check(digest(expect<AL>(obj)) == before, "reading-changes", before.substr(0, 200));
    c.count("objects");
}

// the introspectable view of the same object
template <typename T, typename V>
static void viewOne(vh::Case& c, T& obj, const V& view, const tobj::Node& node)
{
    const Exp e = expect<AL>(obj);
    const auto h = zserio::introspectable(view, AL());
    Look l{c, "view", c.rng.chance(30), ""};
    check<AL>(l, *h, e);
    checkPaths<AL>(l, *h, e, "");
    const auto bytes = tobj::encodeBytes(node);
    const auto buf = h->serialize();
    c.check(std::equal(bytes.begin(), bytes.end(), buf.getBuffer(), buf.getBuffer() + buf.getByteSize()), "view/serialize", node.text(200));
    if (l.deep)
    {
        c.check(throwsRuntime([&]() { (void)h->getParameter("noSuchParameter"); }), "view/unknown-parameter", node.text(100));
        c.check(throwsRuntime([&]() { (void)h->callFunction("noSuchFunction"); }), "view/unknown-function", node.text(100));
        c.check(h->find("noSuchFunction") == nullptr, "view/find-unknown", node.text(100));
        if (!e.kids.empty() && e.kids[0].kind == Exp::LEAF)
        {
            const auto leaf = h->getField(e.kids[0].name);
            c.check(throwsRuntime([&]() { (void)leaf->serialize(); }), "view/serialize-leaf", node.text(100));
            c.check(throwsRuntime([&]() { (void)leaf->getParameter("param"); }), "view/leaf-parameter", node.text(100));
            c.check(throwsRuntime([&]() { (void)leaf->callFunction("f"); }), "view/leaf-function", node.text(100));
        }
    }
    c.count("views");
}

template <typename V>
static Exp expectParam(V& v)
{
    return expect<AL>(v);
}
static Exp expectParam(std::string_view& v)
{
    Exp e;
    e.kind = Exp::LEAF;
    e.exact = TEXT;
    e.ti = &zserio::typeInfo<zserio::BasicString<zserio::RebindAlloc<AL, char>>, AL>();
    e.blob = std::string(v);
    e.hasText = true;
    e.text = e.blob;
    e.addr = &v;
    e.viewOk = [](const zserio::BasicAny<AL>& any, const void* a) {
        return any.template get<std::string_view>() == *static_cast<const std::string_view*>(a);
    };
    return e;
}
template <typename H, typename... P, size_t... I>
static void parametersOf(vh::Case& c, const H& h, const std::vector<std::string>& names, std::tuple<P...> args, std::index_sequence<I...>)
{
    const auto one = [&](const std::string& name, auto& value) {
        const Exp e = expectParam(value);
        Look l{c, "parameter", true, name};
        const auto p = h->getParameter(name);
        check<AL>(l, *p, e);
        const auto q = h->find(name);
        if (!q)
        {
            c.fail("parameter/find", name);
            return;
        }
        check<AL>(l, *q, e);
        c.check(throwsRuntime([&]() { (void)h->getField(name); }), "parameter/as-field", name);
        c.count("parameters");
    };
    (one(names.at(I), std::get<I>(args)), ...);
}

template <typename T>
static void objectCase(vh::Case& c, const tobj::Node& node)
{
    T obj{AL()};
    N::build(node, obj);
    reflectOne(c, obj, c.rng.chance(30));
    const auto args = N::args(node, static_cast<T*>(nullptr));
    std::apply(
            [&](const auto&... a) {
                const zserio::View<T> view(obj, a...);
                viewOne(c, obj, view, node);
                if constexpr (sizeof...(a) != 0)
                {
                    parametersOf(c, zserio::introspectable(view, AL()), params(static_cast<T*>(nullptr)), args,
                            std::make_index_sequence<sizeof...(a)>());
                }
            },
            args);
    if constexpr (std::is_same_v<T, ::test_object::TOBJ_NS::ReflectableObject>)
    {
        const auto h = zserio::introspectable(zserio::View<T>(obj), AL());
        const Exp e = expect<AL>(obj.reflectableNested.value);
        Look l{c, "function", true, "reflectableNested.getValue"};
        const auto f = h->getField("reflectableNested")->callFunction("getValue");
        check<AL>(l, *f, e);
        const auto g = h->find("reflectableNested.getValue");
        c.check(g != nullptr, "function/find", "not found");
        if (g)
        {
            check<AL>(l, *g, e);
        }
        const auto p = h->find("reflectableNested.stringParam");
        c.check(p != nullptr && p->getStringView() == std::string_view(obj.stringField), "parameter/find-nested", node.text(100));
        const auto q = h->find("reflectableNested.dummyParam");
        c.check(q != nullptr && q->toInt() == 13, "parameter/find-nested-number", node.text(100));
        c.count("functions");
    }
}

// a history of changes through reflection, made directly to a model as well
template <typename T, typename H>
static void changes(vh::Case& c, T& obj, const H& h, T model, bool owner = false)
{
    Exp first = expect<AL>(model);
    T origin(model);
    C18_FN(FieldGen) gen{c.rng};
    Mut<AL> m = makeMut(c, "change");
    const size_t n = 1 + c.rng.below(c.thorough ? 20 : 8);
    for (size_t i = 0; i < n; ++i)
    {
        mutateCompound<AL>(m, *h, model, gen, 0);
        c.count("steps");
        const std::string got = digest(expect<AL>(obj));
        const std::string want = digest(expect<AL>(model));
        c.eval();
        if (got != want)
        {
            size_t p = 0;
            while (p < got.size() && p < want.size() && got[p] == want[p])
            {
                ++p;
            }
            c.fail("change/not-as-direct", vh::str(m.log, " at ", p, ": got ", got.substr(p > 40 ? p - 40 : 0, 90), " expected ", want.substr(p > 40 ? p - 40 : 0, 90)));
            return;
        }
        m.log += "| ";
        const Same s = same(expect<AL>(obj), expect<AL>(origin));
        const auto other = zserio::reflectable(origin, AL());
        const bool eq = c.rng.flip() ? zserio::ReflectableUtil::equal<AL>(h, other) : zserio::ReflectableUtil::equal<AL>(other, h);
        c.check(s == CLOSE || eq == (s == EQUAL), "equal/contents", vh::str("generic equality ", eq, " after ", m.log));
        c.count(s == EQUAL ? "equal" : "different");
    }
    const Exp e = expect<AL>(obj);
    Look l{c, "changed", false, "", owner};
    check<AL>(l, static_cast<const Refl&>(*h), e);
}

template <typename T>
static void ownerCase(vh::Case& c)
{
    const auto owner = zserio::typeInfo<T, AL>().createInstance(AL());
    c.check(owner != nullptr, "owner/null", "no instance");
    T& obj = zserio::ReflectableUtil::getValue<T, AL>(owner);
    c.check(digest(expect<AL>(obj)) == [&]() {
        T fresh{AL()};
        return digest(expect<AL>(fresh));
    }(), "owner/default", "a new instance is not the default object");
    changes(c, obj, owner, T(obj), true);
    const zserio::IBasicReflectableDataConstPtr<AL> constOwner = owner;
    c.check(&zserio::ReflectableUtil::getValue<T, AL>(constOwner) == &obj, "owner/const-value", "another object");
    const Exp e = expect<AL>(obj);
    Look l{c, "owner", true, "", true};
    check<AL>(l, static_cast<const Refl&>(*owner), e);
    checkMutable(l, *owner, e);
    checkPaths<AL>(l, static_cast<const Refl&>(*owner), e, "");
    c.count("owners");
}

#ifndef C18_ALL
void C18_FN(objects)(vh::Case& c)
{
    tobj::Gen gen(c.rng, tobj::Gen::ANY, 4, 20);
    N::withAnyType(c.idx, [&](auto* t, auto make) {
        using T = std::remove_pointer_t<decltype(t)>;
        objectCase<T>(c, make(gen));
    });
}
void C18_FN(histories)(vh::Case& c)
{
    tobj::Gen gen(c.rng, tobj::Gen::ANY, 4, 20);
    N::withAnyType(c.idx, [&](auto* t, auto make) {
        using T = std::remove_pointer_t<decltype(t)>;
        const tobj::Node node = make(gen);
        T obj{AL()};
        N::build(node, obj);
        c.distinct(node.hash());
        changes(c, obj, zserio::reflectable(obj, AL()), T(obj));
        if (c.rng.chance(30))
        {
            ownerCase<T>(c);
        }
    });
}
#endif
#ifdef C18_ALL
void C18_FN(allTypes)(vh::Case& c)
{
    using T = allobj::AllObj<AL>;
    T obj{AL()};
    allobj::Fill fill{c.rng, 3, false, true};
    allobj::fillStruct(obj, fill, 60);
    reflectOne(c, obj, c.rng.chance(20));
    changes(c, obj, zserio::reflectable(obj, AL()), T(obj));
    if (c.rng.chance(20))
    {
        ownerCase<T>(c);
    }
}
// introspectable views of values of every type
void C18_FN(leafViews)(vh::Case& c)
{
    using T = allobj::AllObj<AL>;
    T obj{AL()};
    allobj::Fill fill{c.rng, 3, false, true};
    for (size_t i = 0; i < allobj::FIELDS; ++i)
    {
        allobj::withField(obj, i, [&](auto& m) {
            using M = std::decay_t<decltype(m)>;
            if constexpr (is_leaf<M>)
            {
                fill(m);
                const Exp e = expect<AL>(m);
                Look l{c, "leaf-view", true, allobj::fieldNames()[i]};
                zserio::IBasicIntrospectableViewConstPtr<AL> h;
                if constexpr (IsDyn<M>::value)
                {
                    h = zserio::introspectable(zserio::View<M>(m, sizeof(typename M::ValueType) * 8), AL());
                }
                else if constexpr (is_text<M>)
                {
                    h = zserio::introspectable(std::string_view(m), AL());
                }
                else if constexpr (is_bytes<M>)
                {
                    h = zserio::introspectable(zserio::BytesView(m), AL());
                }
                else if constexpr (IsBuf<M>::value)
                {
                    h = zserio::introspectable(zserio::BasicBitBufferView<AL>(m), AL());
                }
                else
                {
                    h = zserio::introspectable(m, AL());
                }
                check<AL>(l, *h, e);
                c.count("leaf_views");
            }
        });
    }
}
#endif

} // namespace c18
