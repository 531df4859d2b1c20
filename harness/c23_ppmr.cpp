#include "c23.h"
#include "allobj_ppmr.h"
#define TOBJ_NS ppmr_allocator
#define C23_FN(x) x##_ppmr
#include "c23.inc"
