#include "c20.h"
#include "tobj_pmr.h"
#define TOBJ_NS pmr_allocator
#define C20_FN(x) x##_pmr
#include "c20.inc"
