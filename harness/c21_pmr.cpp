#include "c21.h"
#include "allobj.h"
#include "allobj_pmr.h"
#define TOBJ_NS pmr_allocator
#define C18_FN(x) x##_pmr
#define C21_FAULTS
#include "c21.inc"
