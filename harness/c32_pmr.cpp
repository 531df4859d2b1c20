#include "vh.h"
#include "tobj_pmr.h"
#define TOBJ_NS pmr_allocator
#include "c32.inc"

VH_SECTION(histories_pmr, 600, 60000)
{
    c32::runHistories(c);
}
VH_SECTION(others_pmr, 300, 30000)
{
    c32::runOthers(c);
}
VH_SECTION(failures_pmr, 40, 2000)
{
    c32::unserialisable(c);
}
