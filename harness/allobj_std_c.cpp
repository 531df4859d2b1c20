#include "allobj_std.h"
using A = test_object::std_allocator::CreatorNested::allocator_type;
template struct zserio::detail::AllObjConst<A>;
