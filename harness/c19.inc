// included with TOBJ_NS and C19_FN defined
#include "c18_ns.inc"
#ifdef C19_ALL
namespace allobj
{
template <typename A, typename F>
void visit(AllObj<A>& o, F&& f)
{
    for (size_t i = 0; i < FIELDS; ++i)
    {
        withField(o, i, [&](auto& m) {
            using M = std::decay_t<decltype(m)>;
            if constexpr (c18::is_opt<M>)
            {
                f(std::string_view(fieldNames()[i]), ::c18::OptAcc<M>{m});
            }
            else
            {
                f(std::string_view(fieldNames()[i]), ::c18::PlainAcc<M>{m});
            }
        });
    }
}
} // namespace allobj
#endif

namespace c19
{
namespace N = tobj::TOBJ_NS;
using AL = ::test_object::TOBJ_NS::CreatorNested::allocator_type;

void C19_FN(walks)(vh::Case& c)
{
    tobj::Gen gen(c.rng, tobj::Gen::ANY, 4, 8);
    // objects with something to walk more often
    static const size_t rich[] = {1, 1, 1, 0, 5, 3, 2, 4, 14};
    N::withAnyType(c.rng.chance(15) ? c.idx : rich[c.idx % std::size(rich)], [&](auto* t, auto make) {
        using T = std::remove_pointer_t<decltype(t)>;
        const tobj::Node node = make(gen);
        T obj{AL()};
        N::build(node, obj);
        const Tree<AL> e = c18::expect<AL>(obj);
        Ptr<AL> root;
        if (c.rng.flip())
        {
            const T& cobj = obj;
            root = zserio::reflectable(cobj, AL());
        }
        else
        {
            root = zserio::reflectable(obj, AL());
        }
        walkTree<AL>(c, root, e, AL());
    });
    if (c.rng.chance(5))
    {
        refusals<AL>(c, AL());
    }
}
#ifdef C19_ALL
void C19_FN(allTypes)(vh::Case& c)
{
    using T = allobj::AllObj<AL>;
    T obj{AL()};
    allobj::Fill fill{c.rng, 3, false, true};
    allobj::fillStruct(obj, fill, 60);
    const T& cobj = obj;
    walkTree<AL>(c, zserio::reflectable(cobj, AL()), c18::expect<AL>(obj), AL());
}
#endif
} // namespace c19
