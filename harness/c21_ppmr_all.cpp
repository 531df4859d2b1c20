#include "c21.h"
#include "allobj.h"
#include "allobj_ppmr.h"
#define TOBJ_NS ppmr_allocator
#define C18_FN(x) x##_ppmr
#define C18_ALL
#include "c21.inc"
