#include "allobj_ppmr.h"
using A = test_object::ppmr_allocator::CreatorNested::allocator_type;
template struct zserio::detail::TypeInfo<allobj::AllObj<A>, A>;
template jref::J allobj::structJ(const allobj::AllObj<A>& o, const allobj::Form& form);
template void allobj::fillStruct(allobj::AllObj<A>& o, allobj::Fill& fill, size_t percent);
