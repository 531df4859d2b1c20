#include "c20.h"
#include "tobj_std.h"
#define TOBJ_NS std_allocator
#define C20_FN(x) x##_std
#include "c20.inc"
