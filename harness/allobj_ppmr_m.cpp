#include "allobj_ppmr.h"
using A = test_object::ppmr_allocator::CreatorNested::allocator_type;
template struct zserio::detail::AllObjMutable<A>;
