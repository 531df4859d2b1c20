#include "c26.h"
#include "tobj_std.h"
#define TOBJ_NS std_allocator
#define C26_FN(name) name##_std
#include "c26.inc"
