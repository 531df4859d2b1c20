#include "c07.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define TYPE(...) static const arr::RegBody CAT(reg, __COUNTER__)(__VA_ARGS__::name(), arr::packedBody<__VA_ARGS__>()); static const arr::RegBody CAT(reg, __COUNTER__)(__VA_ARGS__::name(), arr::edgesBody<__VA_ARGS__>());
#include "arr_types_3.inc"
