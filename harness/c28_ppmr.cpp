#include "life.h"
#include "tobj_ppmr.h"
#define TOBJ_NS ppmr_allocator
#include "c28.inc"

VH_SECTION(failures_ppmr, 60, 20000)
{
    c28::runFailures(c);
}
