#include "c26.h"
#include "tobj_ppmr.h"
#define TOBJ_NS ppmr_allocator
#define C26_FN(name) name##_ppmr
#include "c26.inc"
