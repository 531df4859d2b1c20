// Common harness support: seeded cases, oracles, counters, evidence, progress and leak accounting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iterator>
#include <limits>
#include <map>
#include <set>
#include <locale>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_set>
#include <vector>

namespace vh
{

struct CaseAbort
{};

class Rng
{
public:
    explicit Rng(uint64_t seed) :
            m_s(seed)
    {}

    uint64_t next()
    {
        uint64_t z = (m_s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }

    // 0 .. n-1 (n > 0)
    uint64_t below(uint64_t n)
    {
        return n == 0 ? 0 : next() % n;
    }

    int64_t range(int64_t lo, int64_t hi) // inclusive
    {
        return static_cast<int64_t>(
                static_cast<uint64_t>(lo) + below(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1));
    }

    bool chance(unsigned percent)
    {
        return below(100) < percent;
    }

    bool flip()
    {
        return (next() & 1U) != 0;
    }

    // unsigned number with at most `bits` bits, boundary dense
    uint64_t ubits(unsigned bits)
    {
        if (bits == 0)
        {
            return 0;
        }
        const uint64_t mask = (bits >= 64) ? ~uint64_t(0) : ((uint64_t(1) << bits) - 1);
        switch (below(8))
        {
        case 0:
            return below(4) & mask;
        case 1:
            return (mask - below(4)) & mask;
        case 2: // around a power of two
        {
            const uint64_t p = uint64_t(1) << below(bits);
            return (p + below(3) - 1) & mask;
        }
        case 3: // short
            return next() & mask & ((uint64_t(2) << below(bits)) - 1);
        case 4: // few bits set
            return ((uint64_t(1) << below(bits)) | (uint64_t(1) << below(bits))) & mask;
        default:
            return next() & mask;
        }
    }

    // signed number fitting `bits` bits, boundary dense
    int64_t sbits(unsigned bits)
    {
        if (bits == 0)
        {
            return 0;
        }
        const uint64_t u = ubits(bits);
        if (bits >= 64)
        {
            return static_cast<int64_t>(u);
        }
        const uint64_t sign = uint64_t(1) << (bits - 1);
        return static_cast<int64_t>((u ^ sign)) - static_cast<int64_t>(sign);
    }

    template <typename C>
    auto& pick(C& c)
    {
        return c[below(std::size(c))];
    }

    std::string bytes(size_t n)
    {
        std::string s(n, '\0');
        for (auto& ch : s)
        {
            ch = static_cast<char>(next());
        }
        return s;
    }

private:
    uint64_t m_s;
};

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    return h;
}

inline uint64_t hashStr(std::string_view s, uint64_t h = 1469598103934665603ULL)
{
    for (char c : s)
    {
        h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ULL;
    }
    return mix(h, s.size());
}

// pauses heap accounting while the harness itself stores something
struct Pause
{
    Pause();
    ~Pause();
};

// counts heap allocations made while it lives, except those inside an Exempt or Pause (needs sanitizer malloc hooks)
struct Forbid
{
    Forbid();
    ~Forbid();
    uint64_t hits() const;
};
struct Exempt
{
    Exempt();
    ~Exempt();
    int before;
};
// prints the stack when the environment variable VH_STACKS is set
void printStack();

// net number of live heap blocks (0 when the build has no sanitizer malloc hooks)
int64_t liveBlocks();
// total allocated bytes since start (not decreasing); largest single allocation since last reset
uint64_t allocatedBytes();
uint64_t largestAlloc();
int64_t liveBytes();
int64_t peakLiveBytes();
void resetAllocStats();

inline void strAppend(std::ostringstream&)
{}
template <typename T, typename... R>
void strAppend(std::ostringstream& os, const T& v, const R&... r)
{
    if constexpr (std::is_same_v<T, int8_t> || std::is_same_v<T, uint8_t>)
    {
        os << static_cast<int>(v);
    }
    else if constexpr (std::is_enum_v<T>)
    {
        os << static_cast<long long>(v);
    }
    else
    {
        os << v;
    }
    strAppend(os, r...);
}
template <typename... A>
std::string str(const A&... a)
{
    std::ostringstream os;
    os.imbue(std::locale::classic()); // whatever locale a check sets
    os.precision(17);
    strAppend(os, a...);
    return os.str();
}

inline std::string hex(const void* data, size_t n, size_t maxBytes = 64)
{
    static const char* d = "0123456789abcdef";
    std::string s;
    const auto* p = static_cast<const uint8_t*>(data);
    for (size_t i = 0; i < n && i < maxBytes; ++i)
    {
        s += d[p[i] >> 4];
        s += d[p[i] & 15];
    }
    if (n > maxBytes)
    {
        s += "...";
    }
    return s;
}

class Case
{
public:
    Case(const char* section, uint64_t idx, uint64_t seed, bool thorough) :
            rng(mix(mix(hashStr(section), idx), seed * 0x1234567ULL + 99)),
            section(section),
            idx(idx),
            thorough(thorough)
    {}

    // n oracle evaluations
    void eval(uint64_t n = 1);
    // one distinct non-trivial case identified by its hash
    void distinct(uint64_t h);
    void distinct(std::string_view s)
    {
        distinct(hashStr(s));
    }
    // event counter
    void count(const char* name, uint64_t n = 1);
    void sample(const std::string& s);
    bool wantSample() const;
    // report and abort the case
    [[noreturn]] void fail(const std::string& oracle, const std::string& detail);
    // report without aborting
    void report(const std::string& oracle, const std::string& detail);

    void check(bool ok, const char* oracle, const std::string& detail)
    {
        eval();
        if (!ok)
        {
            fail(oracle, detail);
        }
    }

    void trace(const std::string& s) // shown when the case fails or crashes
    {
        Pause p;
        traceLog.push_back(s);
        if (traceLog.size() > 400)
        {
            traceLog.erase(traceLog.begin(), traceLog.begin() + 100);
        }
    }

    void clearTrace()
    {
        Pause p;
        traceLog.clear();
    }

    std::string traceText() const
    {
        std::string t;
        for (const auto& s : traceLog)
        {
            t += s;
            t += "; ";
        }
        return t;
    }

    Rng rng;
    const char* section;
    uint64_t idx;
    bool thorough;
    std::vector<std::string> traceLog;
};

// lazily built detail text
#define VH_CHECK(c, cond, oracle, ...) \
    do \
    { \
        (c).eval(); \
        if (!(cond)) \
        { \
            (c).fail((oracle), ::vh::str(__VA_ARGS__)); \
        } \
    } while (false)

#define VH_EQ(c, a, b, oracle, ...) \
    do \
    { \
        (c).eval(); \
        const auto& vhA_ = (a); \
        const auto& vhB_ = (b); \
        if (!(vhA_ == vhB_)) \
        { \
            (c).fail((oracle), ::vh::str("got ", vhA_, " expected ", vhB_, " " __VA_OPT__(, ) __VA_ARGS__)); \
        } \
    } while (false)

struct SectionDef
{
    const char* name;
    uint64_t quick;
    uint64_t thorough;
    bool leakCheck;
    void (*fn)(Case&);
};

std::vector<SectionDef>& sections();

struct SectionReg
{
    SectionReg(const char* name, uint64_t quick, uint64_t thorough, bool leakCheck, void (*fn)(Case&))
    {
        sections().push_back({name, quick, thorough, leakCheck, fn});
    }
};

#define VH_SECTION(name, quick, thorough) \
    static void vhsec_##name(::vh::Case& c); \
    static const ::vh::SectionReg vhreg_##name(#name, quick, thorough, true, vhsec_##name); \
    static void vhsec_##name(::vh::Case& c)

#define VH_SECTION_NOLEAK(name, quick, thorough) \
    static void vhsec_##name(::vh::Case& c); \
    static const ::vh::SectionReg vhreg_##name(#name, quick, thorough, false, vhsec_##name); \
    static void vhsec_##name(::vh::Case& c)

// distinct type counters etc. for tests with a scratch directory
std::string scratchDir();

} // namespace vh
