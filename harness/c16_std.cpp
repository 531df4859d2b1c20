#include "c16.h"
#include "allobj_std.h"
#define TOBJ_NS std_allocator
#define C16_FN(x) x##_std
#define C16_ALL
#include "c16.inc"
