#include "c19.h"
#include "allobj.h"
#include "allobj_std.h"
#define TOBJ_NS std_allocator
#define C19_FN(x) x##_std
#define C19_ALL
#include "c19.inc"
