// included with TOBJ_NS and C15_FN defined
namespace c15
{
namespace N = tobj::TOBJ_NS;
using tobj::Node;

static void leaves(Node& n, std::vector<Node*>& out)
{
    if (n.name == "identifier" || n.name == "choiceSelector" || n.name == "selector" || n.name == "reflectableEnum")
    {
        return; // others depend on them
    }
    switch (n.kind)
    {
    case Node::OBJ:
    case Node::CHOICE:
    case Node::UNION:
    case Node::ARR:
        if (n.kind == Node::ARR || n.optBit)
        {
            out.push_back(&n);
        }
        for (Node& k : n.kids)
        {
            leaves(k, out);
        }
        break;
    case Node::NUL:
        break;
    default:
        out.push_back(&n);
        break;
    }
}

// another object which differs a little: the last bit, one more element, an optional unset ...
static void perturb(Node& root, vh::Rng& r)
{
    std::vector<Node*> all;
    leaves(root, all);
    if (all.empty())
    {
        return;
    }
    Node& n = *all[r.below(all.size())];
    if (n.optBit && r.chance(30))
    {
        Node none = tobj::mkNull();
        none.name = n.name;
        none.optBit = true;
        n = none;
        return;
    }
    switch (n.kind)
    {
    case Node::INT:
    {
        const unsigned w = n.width;
        uint64_t u = static_cast<uint64_t>(n.num);
        u ^= uint64_t(1) << (r.flip() ? r.below(w) : (r.flip() ? 0 : w - 1));
        if (n.sign)
        {
            n.num = static_cast<int64_t>(u << (64 - w)) >> (64 - w);
        }
        else
        {
            n.num = w == 64 ? u : (u & ((uint64_t(1) << w) - 1));
        }
        break;
    }
    case Node::BOOL:
        n.num = 1 - n.num;
        break;
    case Node::STR:
    case Node::BYTES:
        if (n.s.empty() || r.chance(25))
        {
            n.s += static_cast<char>(r.below(3));
        }
        else if (r.chance(25))
        {
            n.s.pop_back();
        }
        else
        {
            n.s[r.below(n.s.size())] ^= static_cast<char>(1 << r.below(8));
        }
        break;
    case Node::BITS:
        if (n.bitSize == 0 || r.chance(30))
        {
            if (n.bitSize % 8 == 0)
            {
                n.s += '\0';
            }
            ++n.bitSize; // one more zero bit
        }
        else
        {
            const size_t b = r.chance(50) ? n.bitSize - 1 : r.below(n.bitSize);
            n.s[b / 8] ^= static_cast<char>(0x80 >> (b % 8));
        }
        break;
    case Node::MASK:
        n.num ^= 1 << r.below(2);
        break;
    case Node::ENUM:
        n.num = n.num == 0 ? 1 : 0;
        break;
    case Node::ARR:
        if (!n.kids.empty() && r.flip())
        {
            n.kids.pop_back();
        }
        else if (!n.kids.empty())
        {
            const Node k = n.kids.back();
            n.kids.push_back(k);
        }
        break;
    default:
        break;
    }
}

void C15_FN(run)(vh::Case& c)
{
    N::withAnyType(c.idx, [&](auto* t, auto gen) {
        using T = std::remove_pointer_t<decltype(t)>;
        using A = typename T::allocator_type;
        tobj::Gen g(c.rng, tobj::Gen::ANY, 3, 12);
        std::vector<Node> nodes;
        const size_t bases = 1 + c.rng.below(3);
        for (size_t i = 0; i < bases; ++i)
        {
            nodes.push_back(gen(g));
        }
        const size_t size = 7 + c.rng.below(5);
        while (nodes.size() < size)
        {
            Node n = nodes[c.rng.below(nodes.size())];
            if (c.rng.chance(80))
            {
                perturb(n, c.rng);
            }
            nodes.push_back(n);
        }
        std::vector<T> objs;
        objs.reserve(nodes.size());
        for (const Node& n : nodes)
        {
            T& o = objs.emplace_back(A());
            if (c.rng.chance(30))
            {
                N::build(nodes[c.rng.below(nodes.size())], o); // was something else before
            }
            N::build(n, o);
            c.distinct(n.hash());
        }
        const auto eq = [&](size_t i, size_t j) { return nodes[i] == nodes[j]; };
        const auto text = [&](size_t i) { return nodes[i].text(250); };
        c.trace(nodes[0].text(200));
        const std::string type = nodes[0].type;
        all(c, type, objs, eq, NO_ORDER, text);
        std::vector<zserio::View<T>> views;
        for (size_t i = 0; i < nodes.size(); ++i)
        {
            std::apply([&](const auto&... a) { views.emplace_back(objs[i], a...); },
                    N::args(nodes[i], static_cast<T*>(nullptr)));
        }
        const std::string vt = "View<" + type + ">";
        const auto veq = [&](size_t i, size_t j) {
            return nodes[i] == nodes[j] &&
                    N::args(nodes[i], static_cast<T*>(nullptr)) == N::args(nodes[j], static_cast<T*>(nullptr));
        };
        laws(c, vt, views, veq, NO_ORDER, text);
        hashLaws(c, vt, views.size(), veq, [&](size_t i) { return std::hash<zserio::View<T>>()(views[i]); }, text);
#ifdef C15_HOLDERS
        // the same object as another type of holder
        if (c.rng.chance(40))
        {
            std::vector<zserio::BasicOptional<A, T>> opts;
            std::vector<zserio::Extended<T>> exts;
            std::vector<zserio::BasicVariant<A, size_t, T, bool, T>> vars;
            for (size_t i = 0; i < objs.size(); ++i)
            {
                opts.emplace_back(objs[i]);
                exts.emplace_back(objs[i]);
                vars.emplace_back(zserio::in_place_index<size_t(0)>, objs[i]);
            }
            all(c, "Optional<" + type + ">", opts, eq, NO_ORDER, text);
            all(c, "Extended<" + type + ">", exts, eq, NO_ORDER, text);
            all(c, "Variant<" + type + ">", vars, eq, NO_ORDER, text);
            all(c, "Vector<" + type + ">", std::vector<zserio::Vector<T, zserio::RebindAlloc<A, T>>>{
                        zserio::Vector<T, zserio::RebindAlloc<A, T>>(objs.begin(), objs.end()),
                        zserio::Vector<T, zserio::RebindAlloc<A, T>>(objs.begin(), objs.end())},
                    [](size_t, size_t) { return true; }, NO_ORDER, text);
        }
#endif
        c.count("object_pools");
    });
}

} // namespace c15
