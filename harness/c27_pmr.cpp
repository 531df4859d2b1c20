#include "life.h"
#include "tobj_pmr.h"
#define TOBJ_NS pmr_allocator
#include "c27.inc"

VH_SECTION(operations_pmr, 1500, 60000)
{
    c27::runOperations(c);
}
VH_SECTION(histories_pmr, 5000, 200000)
{
    c27::runHistories(c);
}
VH_SECTION(database_pmr, 600, 20000)
{
    c27::runDatabase(c);
}
