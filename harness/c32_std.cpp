#include "vh.h"
#include "tobj_std.h"
#define TOBJ_NS std_allocator
#include "c32.inc"

VH_SECTION(histories_std, 600, 60000)
{
    c32::runHistories(c);
}
VH_SECTION(others_std, 300, 30000)
{
    c32::runOthers(c);
}
VH_SECTION(failures_std, 40, 2000)
{
    c32::unserialisable(c);
}
