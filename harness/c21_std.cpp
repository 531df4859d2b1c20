#include "c21.h"
#include "allobj.h"
#include "allobj_std.h"
#define TOBJ_NS std_allocator
#define C18_FN(x) x##_std

#include "c21.inc"
