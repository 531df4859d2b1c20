#include "c16.h"
#include "tobj_pmr.h"
#define TOBJ_NS pmr_allocator
#define C16_FN(x) x##_pmr

#include "c16.inc"
