#include "c19.h"
#include "allobj.h"
#include "allobj_ppmr.h"
#define TOBJ_NS ppmr_allocator
#define C19_FN(x) x##_ppmr
#define C19_ALL
#include "c19.inc"
