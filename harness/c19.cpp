// C19: the walker visits exactly the data, in order, as the filters allow
#include "c19.h"

namespace c18
{
bool sameBits(double a, double b)
{
    return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b));
}
} // namespace c18

namespace c19
{
#define DECL(x) void x(vh::Case& c)
DECL(walks_std);
DECL(walks_pmr);
DECL(walks_ppmr);
DECL(allTypes_std);
DECL(allTypes_ppmr);

// a pattern made from real paths of the object
static std::string onePath(vh::Rng& r, const std::string& p)
{
    std::string out;
    size_t i = 0;
    while (i < p.size())
    {
        const size_t dot = std::min(p.find('.', i), p.size());
        std::string seg = p.substr(i, dot - i);
        const size_t b = seg.find('[');
        std::string name = seg.substr(0, b);
        std::string idx = b == std::string::npos ? "" : seg.substr(b + 1, seg.size() - b - 2);
        switch (r.below(8))
        {
        case 0:
            name = "[^.\\[]*";
            break;
        case 1:
            name = name.substr(0, 1 + r.below(name.size())) + "[A-Za-z0-9]*";
            break;
        default:
            break;
        }
        out += name;
        if (b != std::string::npos)
        {
            out += "\\[";
            out += r.chance(25) ? "\\d+" : (r.chance(10) ? "[02468]" : idx);
            out += "\\]";
        }
        if (dot < p.size())
        {
            out += "\\.";
        }
        i = dot + 1;
    }
    if (r.chance(15))
    {
        out += ".*";
    }
    if (r.chance(5))
    {
        out += "\\..*";
    }
    if (r.chance(10))
    {
        out = out.substr(out.find_last_of('.') == std::string::npos ? 0 : out.find_last_of('.') + 1);
        out = ".*" + out;
    }
    return out;
}
std::string makeRegex(vh::Rng& r, const std::vector<std::string>& paths)
{
    const auto pick = [&]() {
        std::string p;
        for (int i = 0; i < 20 && p.empty(); ++i)
        {
            p = paths[r.below(paths.size())];
        }
        return p;
    };
    for (;;)
    {
        std::string re;
        switch (r.below(10))
        {
        case 0:
            re = ".*";
            break;
        case 1:
            re = "nothing";
            break;
        case 2:
            re = "(" + onePath(r, pick()) + ")|(" + onePath(r, pick()) + ")";
            break;
        case 3:
            re = "[^\\[]*";
            break;
        default:
            re = onePath(r, pick());
            break;
        }
        try
        {
            const std::regex check(re);
            return re;
        }
        catch (const std::regex_error&)
        {
        }
    }
}
} // namespace c19

VH_SECTION(walks_std, 900, 40000)
{
    c19::walks_std(c);
}
VH_SECTION(walks_pmr, 500, 20000)
{
    c19::walks_pmr(c);
}
VH_SECTION(walks_ppmr, 500, 20000)
{
    c19::walks_ppmr(c);
}
VH_SECTION(all_types_std, 60, 3000)
{
    c19::allTypes_std(c);
}
VH_SECTION(all_types_ppmr, 40, 2000)
{
    c19::allTypes_ppmr(c);
}
