#include "tobj_std.h"
#include "c11.h"
#define TOBJ_NS std_allocator
#define C11_FN(x) x##_std
#include "c11.inc"
