#include "c29.inc"

namespace c29
{
void wrappers_ppmr(vh::Case& c)
{
    allWrappers<zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>>(c);
}
void versions_ppmr(vh::Case& c)
{
    versions<zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>>(c);
}
} // namespace c29
