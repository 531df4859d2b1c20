#include "c23.h"
#include "allobj_std.h"
#define TOBJ_NS std_allocator
#define C23_FN(x) x##_std
#include "c23.inc"
