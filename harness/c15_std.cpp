#define C15_HOLDERS
#include <unistd.h>
#include "c15.h"
#include "tobj_std.h"
#define TOBJ_NS std_allocator
#define C15_FN(x) x##_std
#include "c15.inc"
