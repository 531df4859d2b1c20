#include "c07.h"

std::vector<std::pair<std::string, arr::Body>>& arr::bodies()
{
    static auto* b = new std::vector<std::pair<std::string, arr::Body>>;
    return *b;
}

// entries come in pairs: random body, edges body
VH_SECTION(packed, 61 * 100, 61 * 3000)
{
    auto& b = arr::bodies();
    b[(c.idx % (b.size() / 2)) * 2].second(c);
}

VH_SECTION(edges, 61, 61 * 20)
{
    auto& b = arr::bodies();
    b[(c.idx % (b.size() / 2)) * 2 + 1].second(c);
}
