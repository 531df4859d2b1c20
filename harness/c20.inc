// included with TOBJ_NS and C20_FN defined
#include "c18_ns.inc"
#define C20_STR2(x) #x
#define C20_STR(x) C20_STR2(x)
#define C20_INC(f) C20_STR(test_object/TOBJ_NS/f)
#include C20_INC(ReflectableBitmask.h)
#include C20_INC(WalkerBitmask.h)
#include C20_INC(CreatorUnsignedEnum.h)

namespace c20
{
namespace N = tobj::TOBJ_NS;
namespace O = ::test_object::TOBJ_NS;
using AL = O::CreatorNested::allocator_type;

static const Builtins<AL>& builtins()
{
    static const Builtins<AL> b;
    return b;
}

template <typename T>
static void generated(vh::Case& c, const char* name, bool choice, bool uni, std::vector<std::string> functions)
{
    std::vector<FieldFact<AL>> facts;
    T obj{AL()};
    visit(obj, [&](std::string_view fname, auto acc) {
        using Acc = decltype(acc);
        using M = typename Acc::Type;
        facts.push_back({std::string(fname), &elementInfo<M, AL>(), c18::is_vec<M>, Acc::OPTIONAL});
    });
    compound<T, AL>(c, facts, choice, uni, name, c18::params(static_cast<const T*>(nullptr)), functions);
}

void C20_FN(builtin)(vh::Case& c)
{
    const auto& all = builtins().all;
    builtin<AL>(c, all[c.idx % all.size()]);
}
void C20_FN(generatedTypes)(vh::Case& c)
{
    switch (c.idx % 21)
    {
    case 0:
        return generated<O::CreatorNested>(c, "CreatorNested", false, false, {});
    case 1:
        return generated<O::CreatorObject>(c, "CreatorObject", false, false, {});
    case 2:
        return generated<O::WalkerNested>(c, "WalkerNested", false, false, {});
    case 3:
        return generated<O::WalkerUnion>(c, "WalkerUnion", false, true, {});
    case 4:
        return generated<O::WalkerChoice>(c, "WalkerChoice", true, false, {});
    case 5:
        return generated<O::WalkerObject>(c, "WalkerObject", false, false, {});
    case 6:
        return generated<O::ReflectableNested>(c, "ReflectableNested", false, false, {"getValue"});
    case 7:
        return generated<O::ReflectableChoice>(c, "ReflectableChoice", true, false, {});
    case 8:
        return generated<O::ReflectableUnion>(c, "ReflectableUnion", false, true, {});
    case 9:
        return generated<O::ReflectableObject>(c, "ReflectableObject", false, false, {});
    case 10:
        return generated<O::ReflectableUtilChoice>(c, "ReflectableUtilChoice", true, false, {});
    case 11:
        return generated<O::ReflectableUtilUnion>(c, "ReflectableUtilUnion", false, true, {});
    case 12:
        return generated<O::ReflectableUtilObject>(c, "ReflectableUtilObject", false, false, {});
    case 13:
        return generated<O::DebugStringObject>(c, "DebugStringObject", false, false, {});
    case 14:
        return generated<O::DebugStringParamObject>(c, "DebugStringParamObject", false, false, {});
    case 15:
        return enumeration<O::CreatorEnum, AL>(c, "CreatorEnum");
    case 16:
        return enumeration<O::ReflectableEnum, AL>(c, "ReflectableEnum");
    case 17:
        return enumeration<O::ReflectableUtilEnum, AL>(c, "ReflectableUtilEnum");
    case 18:
        return bitmask<O::CreatorBitmask, AL>(c, "CreatorBitmask", {{"READ", 1}, {"WRITE", 2}});
    case 19:
        return bitmask<O::ReflectableBitmask, AL>(c, "ReflectableBitmask", {{"CREATE", 1}, {"READ", 2}, {"WRITE", 4}});
    default:
        bitmask<O::ReflectableUtilBitmask, AL>(c, "ReflectableUtilBitmask", {{"READ", 1}, {"WRITE", 2}});
        return bitmask<O::WalkerBitmask, AL>(c, "WalkerBitmask", {{"ZERO", 1}});
    }
}
void C20_FN(data)(vh::Case& c)
{
    tobj::Gen gen(c.rng, tobj::Gen::ANY, 4, 8);
    N::withAnyType(c.idx, [&](auto* t, auto make) {
        using T = std::remove_pointer_t<decltype(t)>;
        const tobj::Node node = make(gen);
        T obj{AL()};
        N::build(node, obj);
        c.distinct(node.hash());
        againstData<AL>(c, *zserio::reflectable(obj, AL()), node.type);
    });
}
void C20_FN(made)(vh::Case& c)
{
    madeByHand<AL>(c, builtins(), [](const AL& al) -> zserio::IBasicReflectableDataPtr<AL> {
        return std::make_shared<zserio::detail::ReflectableDataOwner<O::WalkerNested>>(al);
    });
    members<AL>(c, builtins());
}
void C20_FN(concurrently)(vh::Case& c)
{
    std::vector<const TI<AL>& (*)()> gets;
    for (const auto& b : builtins().all)
    {
        gets.push_back(b.get);
    }
    gets.push_back(&zserio::typeInfo<O::CreatorObject, AL>);
    gets.push_back(&zserio::typeInfo<O::WalkerObject, AL>);
    gets.push_back(&zserio::typeInfo<O::ReflectableObject, AL>);
    gets.push_back(&zserio::typeInfo<O::ReflectableUtilObject, AL>);
    gets.push_back(&zserio::typeInfo<O::CreatorEnum, AL>);
    gets.push_back(&zserio::typeInfo<O::CreatorBitmask, AL>);
    concurrent<AL>(c, gets);
}
} // namespace c20
