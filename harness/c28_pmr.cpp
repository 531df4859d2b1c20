#include "life.h"
#include "tobj_pmr.h"
#define TOBJ_NS pmr_allocator
#include "c28.inc"

VH_SECTION(failures_pmr, 60, 20000)
{
    c28::runFailures(c);
}
