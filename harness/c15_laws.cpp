#include "c15.h"

namespace c15
{

void lawsOf(vh::Case& c, const std::string& what, size_t n, const Cmp& cmp, const Eq& eq, const Lt& lt, const Text& text)
{
    std::vector<char> less(n * n);
    uint64_t equalPairs = 0;
    for (size_t i = 0; i < n; ++i)
    {
        for (size_t j = 0; j < n; ++j)
        {
            const bool same = eq(i, j);
            const bool ab = cmp(LT, i, j);
            const bool ba = cmp(LT, j, i);
            less[i * n + j] = ab ? 1 : 0;
            equalPairs += same && i != j ? 1U : 0U;
            c.eval(8);
            const char* bad = nullptr;
            if (cmp(EQ, i, j) != same)
            {
                bad = "equality";
            }
            else if (cmp(NE, i, j) == same)
            {
                bad = "inequality";
            }
            else if ((ab || ba) == same)
            {
                bad = "less-than-consistent-with-equality";
            }
            else if (ab && ba)
            {
                bad = "asymmetry";
            }
            else if (cmp(GT, i, j) != ba)
            {
                bad = "greater-than";
            }
            else if (cmp(LE, i, j) != !ba)
            {
                bad = "less-or-equal";
            }
            else if (cmp(GE, i, j) != !ab)
            {
                bad = "greater-or-equal";
            }
            else if (const int want = lt(i, j); want >= 0 && ab != (want == 1))
            {
                bad = "order";
            }
            if (bad != nullptr)
            {
                c.fail(what + "/" + bad, vh::str(text(i), " and ", text(j)));
                return;
            }
        }
    }
    for (size_t i = 0; i < n; ++i)
    {
        for (size_t j = 0; j < n; ++j)
        {
            for (size_t k = 0; less[i * n + j] != 0 && k < n; ++k)
            {
                if (less[j * n + k] != 0 && less[i * n + k] == 0)
                {
                    c.fail(what + "/transitivity", vh::str(text(i), " < ", text(j), " < ", text(k)));
                    return;
                }
            }
        }
    }
    c.count("pairs", n * n);
    c.count("equal_pairs", equalPairs);
}

void hashLaws(vh::Case& c, const std::string& what, size_t n, const Eq& eq, const std::function<uint64_t(size_t)>& hash,
        const Text& text)
{
    std::vector<uint64_t> h;
    for (size_t i = 0; i < n; ++i)
    {
        h.push_back(hash(i));
        c.check(hash(i) == h[i], "hash-reproducible", what);
    }
    uint64_t distinct = 0;
    for (size_t i = 0; i < n; ++i)
    {
        for (size_t j = 0; j < i; ++j)
        {
            if (eq(i, j) && h[i] != h[j])
            {
                c.fail(what + "/hash-of-equal-values", vh::str(text(i), " has ", h[i], ", ", text(j), " has ", h[j]));
                return;
            }
            distinct += h[i] != h[j] ? 1U : 0U;
        }
    }
    c.count("hash_pairs_different", distinct);
    c.count("hashes", n);
}

} // namespace c15
