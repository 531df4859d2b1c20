#include "c29.inc"

namespace c29
{
void wrappers_pmr(vh::Case& c)
{
    allWrappers<std::pmr::polymorphic_allocator<uint8_t>>(c);
}
void versions_pmr(vh::Case& c)
{
    versions<std::pmr::polymorphic_allocator<uint8_t>>(c);
}
} // namespace c29
