#include <unistd.h>
#include "c15.h"
#include "tobj_ppmr.h"
#define TOBJ_NS ppmr_allocator
#define C15_FN(x) x##_ppmr
#include "c15.inc"
