#include "c23.h"
#include "allobj_pmr.h"
#define TOBJ_NS pmr_allocator
#define C23_FN(x) x##_pmr
#include "c23.inc"
