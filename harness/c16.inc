// included with TOBJ_NS and C16_FN defined
namespace c16
{
namespace N = tobj::TOBJ_NS;
using A = ::test_object::TOBJ_NS::CreatorNested::allocator_type;
using CharA = zserio::RebindAlloc<A, char>;
using Str = zserio::BasicString<CharA>;
using Writer = zserio::BasicJsonWriter<A>;

// what the writer gives for an object
template <typename T>
static std::string writeWith(vh::Case& c, const T& obj, const Setup& s)
{
    std::ostringstream os;
    configure(os, s.stream, c.rng);
    const auto run = [&](Writer& w) {
        if (s.itemSep)
        {
            w.setItemSeparator(Str(s.layout.item.data(), s.layout.item.size()));
        }
        if (s.keySep)
        {
            w.setKeySeparator(Str(s.layout.key.data(), s.layout.key.size()));
        }
        if (s.numbers || c.rng.flip())
        {
            w.setEnumerableFormat(
                    s.numbers ? Writer::EnumerableFormat::NUMBER : Writer::EnumerableFormat::STRING);
        }
        zserio::BasicWalker<A> walker(w);
        walker.walk(zserio::reflectable(obj, A()));
    };
    if (s.ctor == 0)
    {
        Writer w(os);
        run(w);
    }
    else if (s.ctor == 1)
    {
        Writer w(os, s.spaces);
        run(w);
    }
    else
    {
        Writer w(os, Str(s.layout.indent.data(), s.layout.indent.size()));
        run(w);
    }
    c.check(os.good(), "stream-state", s.text());
    c.count("texts_written");
    return os.str();
}

template <typename T>
static std::string readFileText(const T& path)
{
    std::ifstream is(path, std::ios::binary);
    std::ostringstream os;
    os << is.rdbuf();
    return os.str();
}

static std::string around(const std::string& a, const std::string& b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
    {
        ++i;
    }
    const size_t from = i < 30 ? 0 : i - 30;
    return vh::str("differ at ", i, ": got '", a.substr(from, 70), "' expected '", b.substr(from, 70), "'");
}

template <typename T>
static void nodeBody(vh::Case& c, const tobj::Node& n)
{
    T obj{A()};
    N::build(n, obj);
    const int loc = static_cast<int>(c.rng.below(6)); // 1: C++ locale, 2: C locale, of the whole process
    const Locale locale(loc);
    if (loc == 2)
    {
        c.count(std::string(localeconv()->decimal_point) == "," ? "c_locale_cases" : "c_locale_unavailable");
    }
    else if (loc == 1)
    {
        c.count("cpp_locale_cases");
    }

    // writer: exact text and its value
    const Setup setup = randomSetup(c.rng);
    const std::string text = writeWith(c, obj, setup);
    const J want = toJ(n, setup.numbers);
    std::string wantText;
    jref::format(want, setup.layout, wantText);
    c.check(text == wantText, "text", vh::str(setup.text(), " ", around(text, wantText)));
    J got;
    const std::string err = jref::Strict(text).parse(got);
    c.check(err.empty(), "malformed", vh::str(err, " in ", text.substr(0, 300)));
    c.check(err.empty() && got == want, "content", text.substr(0, 300));

    // read back by every entry point
    const auto same = [&](const T& o, const char* how) {
        const tobj::Node back = N::extract(o);
        c.check(back == n, (std::string("read:") + how).c_str(), vh::str(setup.text(), " ", tobj::diff(back, n)));
        c.check(o == obj && std::hash<T>()(o) == std::hash<T>()(obj), (std::string("equal:") + how).c_str(), n.text(200));
        c.count("texts_read");
    };
    const Str atext(text.data(), text.size());
    same(zserio::fromJsonString<T>(atext), "fromJsonString");
    {
        std::istringstream is(text);
        configure(is, setup.stream, c.rng);
        same(zserio::fromJsonStream<T>(is), "fromJsonStream");
    }
    {
        std::istringstream is(text + " " + text);
        zserio::BasicJsonReader<A> reader(is);
        for (int k = 0; k < 2; ++k)
        {
            const auto p = reader.read(zserio::typeInfo<T, A>());
            c.check(static_cast<bool>(p), "read-null", "");
            same(zserio::ReflectableUtil::getValue<T, A>(p), k == 0 ? "JsonReader" : "JsonReader second");
        }
    }
    // helpers: the default filter, 4 spaces unless told otherwise
    Setup def;
    def.layout.indented = true;
    def.layout.item = ",";
    def.layout.indent = "    ";
    std::string wantDef;
    const J wantNames = toJ(n, false);
    jref::format(wantNames, def.layout, wantDef);
    c.check(toStd(zserio::toJsonString(obj)) == wantDef, "toJsonString", around(toStd(zserio::toJsonString(obj)), wantDef));
    const auto ind = static_cast<uint8_t>(c.rng.below(10));
    jref::Layout lay = def.layout;
    lay.indent = std::string(ind, ' ');
    std::string wantInd;
    jref::format(wantNames, lay, wantInd);
    c.check(toStd(zserio::toJsonString(obj, ind)) == wantInd, "toJsonString:indent", "");
    const size_t maxLen = c.rng.below(4);
    zserio::BasicArrayLengthWalkFilter<A> filter(maxLen);
    std::string wantCut;
    jref::format(toJ(n, false, maxLen), def.layout, wantCut);
    std::string wantCutInd;
    jref::format(toJ(n, false, maxLen), lay, wantCutInd);
    {
        const std::string t = toStd(zserio::toJsonString(obj, filter));
        c.check(t == wantCut, "toJsonString:filter", around(t, wantCut));
        c.check(toStd(zserio::toJsonString(obj, ind, filter)) == wantCutInd, "toJsonString:indent,filter", "");
    }
    switch (c.rng.below(4))
    {
    case 0:
    {
        std::ostringstream a;
        zserio::toJsonStream(obj, a);
        c.check(a.str() == wantDef, "toJsonStream", "");
        std::ostringstream b;
        configure(b, setup.stream, c.rng);
        zserio::toJsonStream(obj, b, ind);
        c.check(b.str() == wantInd, "toJsonStream:indent", "");
        std::ostringstream d;
        zserio::toJsonStream(obj, d, filter);
        c.check(d.str() == wantCut, "toJsonStream:filter", "");
        std::ostringstream e;
        zserio::toJsonStream(obj, e, ind, filter);
        c.check(e.str() == wantCutInd, "toJsonStream:indent,filter", "");
        break;
    }
    case 1:
    {
        const std::string path = vh::scratchDir() + "/o.json";
        zserio::toJsonFile(obj, path);
        c.check(readFileText(path) == wantDef, "toJsonFile", "");
        zserio::toJsonFile(obj, path, ind);
        c.check(readFileText(path) == wantInd, "toJsonFile:indent", "");
        same(zserio::fromJsonFile<T>(path), "fromJsonFile");
        const auto p = zserio::fromJsonFile(zserio::typeInfo<T, A>(), path);
        same(zserio::ReflectableUtil::getValue<T, A>(p), "fromJsonFile(typeInfo)");
        zserio::toJsonFile(obj, path, filter);
        c.check(readFileText(path) == wantCut, "toJsonFile:filter", "");
        zserio::toJsonFile(obj, Str(path.data(), path.size()), ind, filter);
        c.check(readFileText(path) == wantCutInd, "toJsonFile:indent,filter", "");
        c.count("files");
        break;
    }
    case 2:
    {
        const auto p = zserio::fromJsonString(zserio::typeInfo<T, A>(), atext);
        same(zserio::ReflectableUtil::getValue<T, A>(p), "fromJsonString(typeInfo)");
        c.check(zserio::ReflectableUtil::equal<A>(p, zserio::reflectable(static_cast<const T&>(obj), A())), "reflectable-equal",
                n.text(200));
        break;
    }
    default:
        // what was read writes the same text again
        c.check(writeWith(c, zserio::fromJsonString<T>(atext), setup) == wantText, "rewrite", n.text(200));
        break;
    }
}

void C16_FN(node)(vh::Case& c, uint64_t type, const tobj::Node& n)
{
    N::withAnyType(type, [&](auto* t, auto) { nodeBody<std::remove_pointer_t<decltype(t)>>(c, n); });
}

#ifdef C16_ALL
// first difference of two JSON trees
static std::string jdiff(const J& a, const J& b, const std::string& path)
{
    if (a == b)
    {
        return "";
    }
    if (a.kids.size() == b.kids.size() && a.kind == b.kind && !a.kids.empty() && a.keys == b.keys)
    {
        for (size_t i = 0; i < a.kids.size(); ++i)
        {
            const std::string d = jdiff(a.kids[i], b.kids[i], path + "/" + (a.keys.empty() ? vh::str(i) : a.keys[i]));
            if (!d.empty())
            {
                return d;
            }
        }
    }
    const auto show = [](const J& j) {
        return vh::str("kind ", static_cast<int>(j.kind), " ", jref::i128str(j.i), " ", vh::str(j.d), "/", ref::f64bits(j.d),
                " '", j.s.substr(0, 40), "' ", j.kids.size());
    };
    return path + ": got " + show(a) + " expected " + show(b);
}

void C16_FN(all)(vh::Case& c, unsigned percent)
{
    using T = allobj::AllObj<A>;
    T obj{A()};
    allobj::Fill fill{c.rng};
    allobj::fillStruct(obj, fill, percent);
    const int loc = static_cast<int>(c.rng.below(6));
    const Locale locale(loc);
    const Setup setup = randomSetup(c.rng);
    const std::string text = writeWith(c, obj, setup);
    const allobj::Form form{setup.numbers};
    const J want = allobj::structJ(obj, form);
    J got;
    const std::string err = jref::Strict(text).parse(got);
    c.check(err.empty(), "malformed", vh::str(setup.text(), " locale ", loc, " ", err, " in ", text.substr(0, 300)));
    c.check(err.empty() && got == want, "content", vh::str(setup.text(), " locale ", loc, " ", jdiff(got, want, "")));
    const auto same = [&](const T& o, const char* how) {
        const J back = allobj::structJ(o, form);
        c.check(back == want, (std::string("read:") + how).c_str(),
                vh::str(setup.text(), " locale ", loc, " ", jdiff(back, want, "")));
        c.count("texts_read");
    };
    same(zserio::fromJsonString<T>(Str(text.data(), text.size())), "fromJsonString");
    if (c.rng.chance(30))
    {
        const std::string t2 = toStd(zserio::toJsonString(obj, static_cast<uint8_t>(c.rng.below(3))));
        J j2;
        c.check(jref::Strict(t2).parse(j2).empty() && j2 == allobj::structJ(obj, allobj::Form()), "toJsonString",
                t2.substr(0, 200));
        std::istringstream is(t2);
        same(zserio::fromJsonStream<T>(is), "fromJsonStream");
    }
    size_t shown = 0;
    for (const J& k : want.kids)
    {
        shown += k.kind == J::NUL ? 0 : 1;
    }
    c.count("fields_with_value", shown);
    c.count("all_type_objects");
    c.distinct(vh::hashStr(text, 7));
}
#endif

} // namespace c16
