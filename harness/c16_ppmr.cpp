#include "c16.h"
#include "allobj_ppmr.h"
#define TOBJ_NS ppmr_allocator
#define C16_FN(x) x##_ppmr
#define C16_ALL
#include "c16.inc"
