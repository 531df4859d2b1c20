// C29: extended fields keep old and new data compatible
#include "vh.h"

namespace c29
{
void wrappers_std(vh::Case& c);
void wrappers_pmr(vh::Case& c);
void wrappers_ppmr(vh::Case& c);
void versions_std(vh::Case& c);
void versions_pmr(vh::Case& c);
void versions_ppmr(vh::Case& c);
} // namespace c29

VH_SECTION(wrappers_std, 6000, 400000)
{
    c29::wrappers_std(c);
}
VH_SECTION(wrappers_pmr, 6000, 400000)
{
    c29::wrappers_pmr(c);
}
VH_SECTION(wrappers_ppmr, 6000, 400000)
{
    c29::wrappers_ppmr(c);
}
VH_SECTION(versions_std, 1200, 60000)
{
    c29::versions_std(c);
}
VH_SECTION(versions_pmr, 1200, 60000)
{
    c29::versions_pmr(c);
}
VH_SECTION(versions_ppmr, 1200, 60000)
{
    c29::versions_ppmr(c);
}
