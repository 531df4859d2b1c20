#include "c19.h"
#include "allobj.h"
#include "tobj_pmr.h"
#define TOBJ_NS pmr_allocator
#define C19_FN(x) x##_pmr

#include "c19.inc"
