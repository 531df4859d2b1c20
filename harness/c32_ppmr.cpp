#include "vh.h"
#include "tobj_ppmr.h"
#define TOBJ_NS ppmr_allocator
#include "c32.inc"

VH_SECTION(histories_ppmr, 600, 60000)
{
    c32::runHistories(c);
}
VH_SECTION(others_ppmr, 300, 30000)
{
    c32::runOthers(c);
}
VH_SECTION(failures_ppmr, 40, 2000)
{
    c32::unserialisable(c);
}
