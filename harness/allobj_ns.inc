// Enum, bitmask and structure of one allocator: define TOBJ_NS before including.
namespace allobj
{

template <>
struct Ext<::test_object::TOBJ_NS::CreatorNested::allocator_type>
{
    using En = ::test_object::TOBJ_NS::CreatorEnum;
    using Ma = ::test_object::TOBJ_NS::CreatorBitmask;
    using Ne = ::test_object::TOBJ_NS::CreatorNested;
};
template <>
struct Names<::test_object::TOBJ_NS::CreatorEnum>
{
    static std::vector<std::pair<std::string, int64_t>> get()
    {
        return {{"ONE", 0}, {"TWO", 1}, {"MinusOne", -1}};
    }
};
template <>
struct Names<::test_object::TOBJ_NS::CreatorBitmask>
{
    static std::vector<std::pair<std::string, int64_t>> get()
    {
        return {{"READ", 1}, {"WRITE", 2}};
    }
};

} // namespace allobj

namespace test_object
{
namespace TOBJ_NS
{

inline jref::J structJ(const CreatorNested& o, const allobj::Form& form)
{
    jref::J j = jref::jobj();
    add(j, "value", allobj::toJ(o.value, form));
    add(j, "text", allobj::toJ(o.text, form));
    add(j, "externData", allobj::toJ(o.externData, form));
    add(j, "bytesData", allobj::toJ(o.bytesData, form));
    add(j, "creatorEnum", allobj::toJ(o.creatorEnum, form));
    add(j, "creatorBitmask", allobj::toJ(o.creatorBitmask, form));
    return j;
}
inline void fillStruct(CreatorNested& o, allobj::Fill& fill)
{
    fill(o.value);
    fill(o.text);
    fill(o.externData);
    fill(o.bytesData);
    fill(o.creatorEnum);
    fill(o.creatorBitmask);
}

} // namespace TOBJ_NS
} // namespace test_object

// compiled apart: allobj_impl.inc
extern template struct ::zserio::detail::AllObjConst<::test_object::TOBJ_NS::CreatorNested::allocator_type>;
extern template struct ::zserio::detail::AllObjMutable<::test_object::TOBJ_NS::CreatorNested::allocator_type>;
extern template struct ::zserio::detail::TypeInfo<allobj::AllObj<::test_object::TOBJ_NS::CreatorNested::allocator_type>,
        ::test_object::TOBJ_NS::CreatorNested::allocator_type>;
extern template jref::J allobj::structJ(
        const allobj::AllObj<::test_object::TOBJ_NS::CreatorNested::allocator_type>& o, const allobj::Form& form);
extern template void allobj::fillStruct(
        allobj::AllObj<::test_object::TOBJ_NS::CreatorNested::allocator_type>& o, allobj::Fill& fill, size_t percent);
