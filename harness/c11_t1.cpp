#include "c11_arr.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define TYPE(...) static const arr::RegBody CAT(reg, __COUNTER__)(__VA_ARGS__::name(), &arr::c11Body<__VA_ARGS__>);
#include "arr_types_1.inc"
