#include "c29.inc"

namespace c29
{
void wrappers_std(vh::Case& c)
{
    allWrappers<std::allocator<uint8_t>>(c);
}
void versions_std(vh::Case& c)
{
    versions<std::allocator<uint8_t>>(c);
}
} // namespace c29
