// included with TOBJ_NS and C18_FN defined
#include "c18_gen.inc"

namespace allobj
{
template <>
struct Names<::test_object::TOBJ_NS::ReflectableEnum>
{
    static std::vector<std::pair<std::string, int64_t>> get()
    {
        return {{"VALUE1", -1}, {"VALUE2", 0}, {"VALUE3", 1}};
    }
};
template <>
struct Names<::test_object::TOBJ_NS::ReflectableUtilEnum>
{
    static std::vector<std::pair<std::string, int64_t>> get()
    {
        return {{"ONE", 0}, {"TWO", 1}};
    }
};
template <>
struct Names<::test_object::TOBJ_NS::ReflectableUtilBitmask>
{
    static std::vector<std::pair<std::string, int64_t>> get()
    {
        return {{"READ", 1}, {"WRITE", 2}};
    }
};
} // namespace allobj

namespace c21
{
#ifndef C18_ALL
void C18_FN(trees)(vh::Case& c)
{
    using AL = ::test_object::TOBJ_NS::CreatorNested::allocator_type;
    c18::C18_FN(FieldGen) gen{c.rng};
    tobj::TOBJ_NS::withAnyType(c.rng.chance(40) ? 0 : c.idx, [&](auto* t, auto) {
        using T = std::remove_pointer_t<decltype(t)>;
        build<AL, T>(c, AL(), gen, nullptr);
    });
}
#ifdef C21_FAULTS
void C18_FN(faults)(vh::Case& c)
{
    using AL = ::test_object::TOBJ_NS::CreatorNested::allocator_type;
    c18::C18_FN(FieldGen) gen{c.rng};
    FailRes res;
    struct Guard
    {
        std::pmr::memory_resource* old;
        ~Guard()
        {
            std::pmr::set_default_resource(old);
        }
    } guard{std::pmr::set_default_resource(&res)};
    tobj::TOBJ_NS::withAnyType(c.rng.chance(60) ? 0 : c.idx, [&](auto* t, auto) {
        using T = std::remove_pointer_t<decltype(t)>;
        build<AL, T>(c, AL(), gen, &res);
    });
}
#endif
#else
void C18_FN(allTypes)(vh::Case& c)
{
    using AL = ::test_object::TOBJ_NS::CreatorNested::allocator_type;
    c18::C18_FN(FieldGen) gen{c.rng};
    build<AL, allobj::AllObj<AL>>(c, AL(), gen, nullptr);
}
#endif
} // namespace c21
