#include "tobj_ppmr.h"
#include "c11.h"
#define TOBJ_NS ppmr_allocator
#define C11_FN(x) x##_ppmr
#include "c11.inc"
