#include "c18.h"
#include "allobj.h"
#include "tobj_std.h"
#define TOBJ_NS std_allocator
#define C18_FN(x) x##_std
#include "c18.inc"
