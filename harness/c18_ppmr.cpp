#include "c18.h"
#include "allobj.h"
#include "tobj_ppmr.h"
#define TOBJ_NS ppmr_allocator
#define C18_FN(x) x##_ppmr
#include "c18.inc"
