#include "c20.h"
#include "tobj_ppmr.h"
#define TOBJ_NS ppmr_allocator
#define C20_FN(x) x##_ppmr
#include "c20.inc"
