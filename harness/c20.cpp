// C20: type information describes the data truthfully
#include "c20.h"

namespace c18
{
bool sameBits(double a, double b)
{
    return std::memcmp(&a, &b, sizeof a) == 0;
}
} // namespace c18
namespace c20
{
#define DECL(n) \
    void n##_std(vh::Case& c); \
    void n##_pmr(vh::Case& c); \
    void n##_ppmr(vh::Case& c)
DECL(builtin);
DECL(generatedTypes);
DECL(data);
DECL(made);
DECL(concurrently);
} // namespace c20

#define SECTIONS(v) \
    VH_SECTION(concurrent_##v, 5, 50) \
    { \
        c20::concurrently_##v(c); \
    } \
    VH_SECTION(builtin_##v, 450, 15000) \
    { \
        c20::builtin_##v(c); \
    } \
    VH_SECTION(generated_##v, 63, 420) \
    { \
        c20::generatedTypes_##v(c); \
    } \
    VH_SECTION(data_##v, 1000, 30000) \
    { \
        c20::data_##v(c); \
    } \
    VH_SECTION(made_##v, 500, 20000) \
    { \
        c20::made_##v(c); \
    }
SECTIONS(std)
SECTIONS(pmr)
SECTIONS(ppmr)

VH_SECTION(utilities, 1, 1)
{
    c20::utilities(c);
}
