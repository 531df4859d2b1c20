#include "c05.h"
#include "test_object/std_allocator/CreatorBitmask.h"
#include "test_object/std_allocator/CreatorEnum.h"
#include "test_object/std_allocator/CreatorUnsignedEnum.h"
#include "test_object/std_allocator/ReflectableBitmask.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define TYPE(...) static const arr::RegBody CAT(reg, __COUNTER__)(__VA_ARGS__::name(), &arr::c05Body<__VA_ARGS__>);
#include "arr_types_4.inc"
