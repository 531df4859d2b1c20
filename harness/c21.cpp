// C21: the tree creator builds exactly what it is told or refuses
#include "c18.h"

namespace c18
{
bool sameBits(double a, double b)
{
    return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b));
}
} // namespace c18

namespace c21
{
#define DECL(x) void x(vh::Case& c)
DECL(trees_std);
DECL(trees_pmr);
DECL(trees_ppmr);
DECL(faults_pmr);
DECL(allTypes_std);
DECL(allTypes_ppmr);
} // namespace c21

VH_SECTION(trees_std, 3000, 150000)
{
    c21::trees_std(c);
}
VH_SECTION(trees_pmr, 1500, 75000)
{
    c21::trees_pmr(c);
}
VH_SECTION(trees_ppmr, 1500, 75000)
{
    c21::trees_ppmr(c);
}
VH_SECTION(faults_pmr, 1500, 75000)
{
    c21::faults_pmr(c);
}
VH_SECTION(all_types_std, 1500, 75000)
{
    c21::allTypes_std(c);
}
VH_SECTION(all_types_ppmr, 800, 40000)
{
    c21::allTypes_ppmr(c);
}
