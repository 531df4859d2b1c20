#include <unistd.h>
#include "c10.h"
#include "tobj_ppmr.h"
#define TOBJ_NS ppmr_allocator
#define C10_FN(x) x##_ppmr
#define C10_REUSE
#include "c10.inc"
