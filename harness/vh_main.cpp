#include "vh.h"

#include <cxxabi.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <fstream>
#include <thread>
#include <typeinfo>

extern "C"
{
    int __sanitizer_install_malloc_and_free_hooks(
            void (*mallocHook)(const volatile void*, size_t), void (*freeHook)(const volatile void*))
            __attribute__((weak));
    size_t __sanitizer_get_allocated_size(const volatile void* p) __attribute__((weak));
    void __sanitizer_print_stack_trace() __attribute__((weak));
}

namespace vh
{

void printStack()
{
    static const bool wanted = getenv("VH_STACKS") != nullptr;
    if (wanted && __sanitizer_print_stack_trace != nullptr)
    {
        const Pause p;
        const Exempt e;
        __sanitizer_print_stack_trace();
    }
}

namespace
{

struct Progress
{
    char section[96];
    volatile uint64_t idx;
    volatile uint64_t counter;
    char trace[3900];
};

struct Violation
{
    std::string section;
    std::string oracle;
    uint64_t idx;
    std::string detail;
    uint64_t count;
};

struct State
{
    uint64_t seed = 1;
    bool thorough = false;
    uint64_t worker = 0;
    uint64_t workers = 1;
    uint64_t evaluations = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, uint64_t> sectionCases;
    std::map<std::string, std::vector<std::string>> samples;
    std::map<std::string, Violation> violations;
    Progress* progress = nullptr;
    std::string scratch = "/tmp";
};

State& st()
{
    static State* s = new State;
    return *s;
}

thread_local int t_pause = 0;
thread_local bool t_main = false;
int64_t g_live = 0;
int64_t g_liveBytes = 0;
int64_t g_peakBytes = 0;
uint64_t g_total = 0;
uint64_t g_largest = 0;

int g_forbidden = 0;
uint64_t g_forbiddenHits = 0;

void mallocHook(const volatile void* p, size_t n)
{
    if (t_main && p != nullptr)
    {
        if (g_forbidden > 0 && t_pause == 0)
        {
            if (g_forbiddenHits++ < 3)
            {
                printStack();
            }
        }
        if (t_pause == 0)
        {
            ++g_live;
            g_total += n;
            g_liveBytes += static_cast<int64_t>(n);
            if (g_liveBytes > g_peakBytes)
            {
                g_peakBytes = g_liveBytes;
            }
            if (n > g_largest)
            {
                g_largest = n;
            }
        }
    }
}

void freeHook(const volatile void* p)
{
    if (t_main && p != nullptr)
    {
        if (t_pause == 0)
        {
            --g_live;
            g_liveBytes -= static_cast<int64_t>(
                    __sanitizer_get_allocated_size != nullptr ? __sanitizer_get_allocated_size(p) : 0);
        }
    }
}

std::string jsonEsc(const std::string& s)
{
    std::string o;
    char buf[8];
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\')
        {
            o += '\\';
            o += static_cast<char>(ch);
        }
        else if (ch < 0x20 || ch >= 0x7f)
        {
            snprintf(buf, sizeof buf, "\\u%04x", ch);
            o += buf;
        }
        else
        {
            o += static_cast<char>(ch);
        }
    }
    return o;
}

std::string clip(const std::string& s, size_t n)
{
    return s.size() <= n ? s : s.substr(0, n) + "...";
}

} // namespace

Forbid::Forbid()
{
    ++g_forbidden;
    g_forbiddenHits = 0;
}
Forbid::~Forbid()
{
    --g_forbidden;
}
uint64_t Forbid::hits() const
{
    return g_forbiddenHits;
}
Exempt::Exempt() :
        before(g_forbidden)
{
    g_forbidden = 0;
}
Exempt::~Exempt()
{
    g_forbidden = before;
}

Pause::Pause()
{
    ++t_pause;
}
Pause::~Pause()
{
    --t_pause;
}

int64_t liveBlocks()
{
    return g_live;
}
uint64_t allocatedBytes()
{
    return g_total;
}
uint64_t largestAlloc()
{
    return g_largest;
}
int64_t liveBytes()
{
    return g_liveBytes;
}
int64_t peakLiveBytes()
{
    return g_peakBytes;
}
void resetAllocStats()
{
    g_largest = 0;
    g_peakBytes = g_liveBytes;
}

std::vector<SectionDef>& sections()
{
    static auto* s = new std::vector<SectionDef>;
    return *s;
}

std::string scratchDir()
{
    return st().scratch;
}

void Case::eval(uint64_t n)
{
    st().evaluations += n;
}

void Case::distinct(uint64_t h)
{
    Pause p;
    if (st().distinct.size() < 3000000)
    {
        st().distinct.insert(mix(hashStr(section), h));
    }
}

void Case::count(const char* name, uint64_t n)
{
    Pause p;
    st().counters[std::string(section) + "." + name] += n;
}

bool Case::wantSample() const
{
    Pause p;
    return st().samples[section].size() < 2;
}

void Case::sample(const std::string& s)
{
    Pause p;
    auto& v = st().samples[section];
    if (v.size() < 2)
    {
        v.push_back(std::string(section) + "#" + std::to_string(idx) + ": " + clip(s, 400));
    }
}

void Case::report(const std::string& oracle, const std::string& detail)
{
    Pause p;
    const std::string key = std::string(section) + "/" + oracle;
    auto it = st().violations.find(key);
    if (it != st().violations.end())
    {
        ++it->second.count;
        return;
    }
    std::string d = clip(detail, 3000);
    if (!traceLog.empty())
    {
        std::string t = traceText();
        if (t.size() > 6000)
        {
            t = "..." + t.substr(t.size() - 6000);
        }
        d += " | trace: " + t;
    }
    st().violations[key] = {section, oracle, idx, d, 1};
}

void Case::fail(const std::string& oracle, const std::string& detail)
{
    report(oracle, detail);
    throw CaseAbort();
}

namespace
{

void runOne(const SectionDef& s, uint64_t idx, bool count)
{
    auto& state = st();
    Case c(s.name, idx, state.seed, state.thorough);
    if (state.progress != nullptr)
    {
        strncpy(state.progress->section, s.name, sizeof(state.progress->section) - 1);
        state.progress->idx = idx;
        ++state.progress->counter;
    }
    try
    {
        s.fn(c);
    }
    catch (const CaseAbort&)
    {}
    catch (const std::exception& e)
    {
        int status = 0;
        char* dem = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &status);
        c.report(std::string("unexpected-exception:") + (dem != nullptr ? dem : typeid(e).name()), e.what());
        free(dem);
    }
    catch (...)
    {
        c.report("unexpected-exception:unknown", "non-standard exception");
    }
    {
        Pause p;
        if (count)
        {
            ++state.sectionCases[s.name];
        }
        std::vector<std::string>().swap(c.traceLog);
    }
}

size_t totalViolations()
{
    uint64_t n = 0;
    for (const auto& v : st().violations)
    {
        n += v.second.count;
    }
    return n;
}

void runCase(const SectionDef& s, uint64_t idx)
{
    const size_t v0 = totalViolations();
    const int64_t before = liveBlocks();
    runOne(s, idx, true);
    if (!s.leakCheck || liveBlocks() == before || totalViolations() != v0)
    {
        return;
    }
    // one-time initialisation is not a leak: only an imbalance that repeats counts
    for (int i = 0; i < 3; ++i)
    {
        const int64_t b = liveBlocks();
        runOne(s, idx, false);
        if (liveBlocks() == b || totalViolations() != v0)
        {
            return;
        }
    }
    Case c(s.name, idx, st().seed, st().thorough);
    c.report(liveBlocks() > before ? "leak" : "negative-heap-balance",
            str("heap blocks grow by ", (liveBlocks() - before), " over 4 repetitions of the case"));
}

} // namespace

int mainImpl(int argc, char** argv)
{
    t_main = true;
    auto& state = st();
    std::string out;
    std::string progress;
    std::set<std::pair<std::string, uint64_t>> skip;
    std::string onlySec;
    int64_t onlyIdx = -1;
    for (int i = 1; i < argc; ++i)
    {
        const std::string a = argv[i];
        auto val = [&]() -> std::string {
            return i + 1 < argc ? argv[++i] : "";
        };
        if (a == "--seed")
        {
            state.seed = std::stoull(val());
        }
        else if (a == "--thorough")
        {
            state.thorough = true;
        }
        else if (a == "--worker")
        {
            state.worker = std::stoull(val());
        }
        else if (a == "--workers")
        {
            state.workers = std::stoull(val());
        }
        else if (a == "--out")
        {
            out = val();
        }
        else if (a == "--progress")
        {
            progress = val();
        }
        else if (a == "--scratch")
        {
            state.scratch = val();
        }
        else if (a == "--skip" || a == "--only")
        {
            const std::string v = val();
            const size_t p = v.rfind(':');
            const std::string sec = v.substr(0, p);
            if (a == "--skip")
            {
                skip.emplace(sec, std::stoull(v.substr(p + 1)));
            }
            else
            {
                onlySec = sec;
                onlyIdx = (p == std::string::npos) ? -1 : static_cast<int64_t>(std::stoull(v.substr(p + 1)));
            }
        }
        else
        {
            fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 3;
        }
    }
    if (!progress.empty())
    {
        const int fd = open(progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Progress)) != 0)
        {
            return 3;
        }
        void* m = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
        if (m == MAP_FAILED)
        {
            return 3;
        }
        state.progress = static_cast<Progress*>(m);
    }
    if (__sanitizer_install_malloc_and_free_hooks != nullptr)
    {
        __sanitizer_install_malloc_and_free_hooks(mallocHook, freeHook);
    }

    uint64_t global = 0;
    for (const auto& s : sections())
    {
        if (!onlySec.empty() && onlySec != s.name)
        {
            continue;
        }
        if (onlyIdx >= 0)
        {
            runCase(s, static_cast<uint64_t>(onlyIdx));
            continue;
        }
        const uint64_t n = state.thorough ? s.thorough : s.quick;
        for (uint64_t i = 0; i < n; ++i)
        {
            if (global++ % state.workers != state.worker)
            {
                continue;
            }
            if (!skip.empty() && skip.count({s.name, i}) != 0)
            {
                continue;
            }
            runCase(s, i);
        }
    }

    if (!out.empty())
    {
        std::ofstream f(out);
        f << "{\"evaluations\": " << state.evaluations << ", \"distinct\": " << state.distinct.size();
        f << ", \"counters\": {";
        bool first = true;
        for (const auto& e : state.counters)
        {
            f << (first ? "" : ", ") << "\"" << jsonEsc(e.first) << "\": " << e.second;
            first = false;
        }
        f << "}, \"cases\": {";
        first = true;
        for (const auto& e : state.sectionCases)
        {
            f << (first ? "" : ", ") << "\"" << jsonEsc(e.first) << "\": " << e.second;
            first = false;
        }
        f << "}, \"samples\": [";
        first = true;
        for (const auto& e : state.samples)
        {
            for (const auto& v : e.second)
            {
                f << (first ? "" : ", ") << "\"" << jsonEsc(v) << "\"";
                first = false;
            }
        }
        f << "], \"violations\": [";
        first = true;
        for (const auto& e : state.violations)
        {
            const auto& v = e.second;
            f << (first ? "" : ", ") << "{\"section\": \"" << jsonEsc(v.section) << "\", \"oracle\": \""
              << jsonEsc(v.oracle) << "\", \"idx\": " << v.idx << ", \"count\": " << v.count << ", \"detail\": \""
              << jsonEsc(v.detail) << "\"}";
            first = false;
        }
        f << "]}\n";
        f.close();
        std::ofstream d(out + ".distinct", std::ios::binary);
        for (uint64_t h : state.distinct)
        {
            d.write(reinterpret_cast<const char*>(&h), 8);
        }
        if (!d)
        {
            return 3;
        }
    }
    else
    {
        for (const auto& e : state.violations)
        {
            printf("VIOL %s idx=%llu count=%llu %s\n", e.first.c_str(),
                    static_cast<unsigned long long>(e.second.idx), static_cast<unsigned long long>(e.second.count),
                    e.second.detail.c_str());
        }
        printf("evaluations=%llu distinct=%zu violations=%zu\n",
                static_cast<unsigned long long>(state.evaluations), state.distinct.size(), state.violations.size());
        for (const auto& e : state.counters)
        {
            printf("  %s = %llu\n", e.first.c_str(), static_cast<unsigned long long>(e.second));
        }
    }
    fflush(nullptr);
    return 0;
}

} // namespace vh

int main(int argc, char** argv)
{
    const int rc = vh::mainImpl(argc, argv);
    fflush(nullptr);
    _exit(rc);
}
