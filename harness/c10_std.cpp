#include <unistd.h>
#include "c10.h"
#include "tobj_std.h"
#define TOBJ_NS std_allocator
#define C10_FN(x) x##_std
#define C10_REUSE
#include "c10.inc"
