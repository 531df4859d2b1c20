// C26: reading shared values and using own ones from many threads at once
#include "c26.h"

#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <thread>

#include "arr.h"
#include "zserio/Any.h"
#include "zserio/BitFieldUtil.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/Extended.h"
#include "zserio/FileUtil.h"
#include "zserio/FloatUtil.h"
#include "zserio/JsonDecoder.h"
#include "zserio/JsonEncoder.h"
#include "zserio/JsonTokenizer.h"
#include "zserio/SerializeUtil.h"
#include "zserio/SizeConvertUtil.h"
#include "zserio/StringConvertUtil.h"
#include "zserio/Variant.h"
#include "zserio/ppmr/Any.h"
#include "zserio/ppmr/String.h"

namespace c26
{

namespace
{

std::string text(std::string_view s)
{
    return std::string(s);
}
template <typename F>
std::string caught(F&& f)
{
    try
    {
        f();
    }
    catch (const zserio::CppRuntimeException& e)
    {
        return e.what();
    }
    return "no exception";
}
template <typename T>
std::shared_ptr<zserio::Vector<T>> elements(Plan& p, vh::Rng& r, size_t n)
{
    auto v = p.own<zserio::Vector<T>>();
    arr::M<T>::gen(r, *v, n);
    return v;
}

template <typename T>
void readArray(zserio::BitStreamReader& in, zserio::Vector<T>& got, bool packed)
{
    if constexpr (arr::M<T>::packable)
    {
        if (packed)
        {
            zserio::detail::readPacked<zserio::detail::ArrayType::AUTO>(in, got);
            return;
        }
    }
    zserio::detail::read<zserio::detail::ArrayType::AUTO>(in, got);
}

template <typename T>
void arrayOps(Plan& p, vh::Rng& r)
{
    const auto v = elements<T>(p, r, 1 + r.below(40));
    const std::string name = arr::M<T>::name();
    for (const bool packed : {false, true})
    {
        const auto write = [v, packed](zserio::BitStreamWriter& w) {
            const zserio::ArrayView<const T> view(*v);
            if constexpr (arr::M<T>::packable)
            {
                if (packed)
                {
                    return zserio::detail::writePacked<zserio::detail::ArrayType::AUTO>(w, view);
                }
            }
            zserio::detail::write<zserio::detail::ArrayType::AUTO>(w, view);
        };
        const auto size = [v, packed]() {
            const zserio::ArrayView<const T> view(*v);
            if constexpr (arr::M<T>::packable)
            {
                if (packed)
                {
                    return zserio::detail::bitSizeOfPacked<zserio::detail::ArrayType::AUTO>(view, 0);
                }
            }
            return zserio::detail::bitSizeOf<zserio::detail::ArrayType::AUTO>(view, 0);
        };
        const auto enc = p.own<zserio::BitBuffer>(size());
        {
            zserio::BitStreamWriter w(*enc);
            write(w);
        }
        p.add(name + (packed ? " packed" : " array") + " write", [write, size]() {
            zserio::BitBuffer b(size());
            zserio::BitStreamWriter w(b);
            write(w);
            return vh::hex(b.getBuffer(), b.getByteSize(), 1000);
        });
        p.add(name + (packed ? " packed" : " array") + " read", [v, enc, packed]() {
            zserio::BitStreamReader in(*enc);
            zserio::Vector<T> got;
            readArray<T>(in, got, packed);
            return vh::str(got.size(), got == *v, in.getBitPosition());
        });
        p.add(name + (packed ? " packed" : " array") + " cut", [enc, packed]() {
            zserio::BitStreamReader in(enc->getBuffer(), enc->getByteSize() / 2);
            zserio::Vector<T> got;
            return caught([&]() {
                readArray<T>(in, got, packed);
            });
        });
    }
}

} // namespace

void runtimeOps(Plan& p, vh::Rng& r, bool, uint64_t)
{
    // what each thread does with streams of its own
    for (int k = 0; k < 3; ++k)
    {
        const uint64_t seed = r.next();
        p.add(vh::str("bit streams ", k), [seed]() {
            vh::Rng g(seed);
            zserio::BitBuffer b(4000);
            zserio::BitStreamWriter w(b);
            std::vector<std::pair<unsigned, uint64_t>> done;
            for (int i = 0; i < 40; ++i)
            {
                const auto n = static_cast<unsigned>(1 + g.below(64));
                const uint64_t v = g.ubits(n);
                w.writeUnsignedBits64(v, static_cast<uint8_t>(n));
                done.push_back({n, v});
            }
            w.writeVarInt(static_cast<int64_t>(seed));
            w.writeVarUInt32(static_cast<uint32_t>(seed & 0x1fffffff));
            w.writeString("shared");
            w.writeFloat16(1.5F);
            zserio::BitStreamReader in(b);
            bool ok = true;
            for (const auto& d : done)
            {
                ok = ok && in.readUnsignedBits64(static_cast<uint8_t>(d.first)) == d.second;
            }
            std::string o = vh::str(ok, in.readVarInt(), " ", in.readVarUInt32(), " ");
            const auto s = in.readString();
            o += text(s) + vh::str(in.readFloat16(), b == b, std::hash<zserio::BitBuffer>()(b));
            o += caught([&]() { w.writeUnsignedBits32(1000, 3); });
            o += caught([&]() { (void)in.readUnsignedBits32(33); });
            return o;
        });
    }
    arrayOps<zserio::UInt8>(p, r);
    arrayOps<zserio::VarInt>(p, r);
    arrayOps<zserio::Int<13>>(p, r);
    arrayOps<zserio::String>(p, r);
    arrayOps<zserio::Float16>(p, r);
    arrayOps<objs::PObj>(p, r);
    {
        auto o = elements<objs::OObj>(p, r, 2);
        const auto dv = p.own<zserio::DataView<objs::OObj>>((*o)[0]);
        p.add("data view with offsets", [dv]() {
            const auto b = zserio::serialize(*dv, std::allocator<uint8_t>());
            return vh::hex(b.getBuffer(), b.getByteSize(), 1000);
        });
        const auto mine = p.own<objs::OObj>((*o)[1]);
        p.add("own object with offsets", [mine]() {
            const objs::OObj copy(*mine);
            const auto b = zserio::serialize(zserio::View<objs::OObj>(copy), std::allocator<uint8_t>());
            return vh::hex(b.getBuffer(), b.getByteSize(), 1000);
        });
    }
    // text
    const uint64_t u = r.next();
    const auto d = static_cast<double>(static_cast<int64_t>(u)) / 4096.0;
    p.add("numbers to text", [u, d]() {
        std::ostringstream os;
        zserio::JsonEncoder::encodeIntegral(os, u);
        zserio::JsonEncoder::encodeIntegral(os, static_cast<int8_t>(u));
        zserio::JsonEncoder::encodeFloatingPoint(os, d);
        zserio::JsonEncoder::encodeFloatingPoint(os, 1e300 * d);
        zserio::JsonEncoder::encodeString(os, "a\"\x01\xc3\xa9\n");
        zserio::JsonEncoder::encodeBool(os, (u & 1) != 0);
        return os.str() + text(zserio::toString(u)) + text(zserio::toString(static_cast<int16_t>(u))) +
                text(zserio::toString(zserio::VarInt(static_cast<int64_t>(u) / 512)));
    });
    p.add("numbers to bits", [u]() {
        return vh::str(zserio::convertUInt16ToFloat(static_cast<uint16_t>(u & 0x7bff)), " ",
                zserio::convertFloatToUInt16(static_cast<float>(u % 70000)), " ",
                zserio::convertDoubleToUInt64(zserio::convertUInt64ToDouble(u)) == u,
                zserio::getBitFieldLowerBound(1 + u % 64, true), zserio::getBitFieldUpperBound(1 + u % 64, false),
                caught([&]() { (void)zserio::getBitFieldUpperBound(65, false); }),
                caught([&]() { (void)zserio::convertSizeToUInt32(u | (1ULL << 40U)); }));
    });
    p.add("exceptions", [u]() {
        return caught([&]() {
            throw zserio::CppRuntimeException("limit ") << u << " of " << static_cast<int8_t>(u) << " " << 1.25F << " " << true
                                                         << std::string(u % 600, 'x') << std::vector<uint8_t>(3);
        });
    });
    const auto json = p.own<std::string>(vh::str(R"({"a": [1, -2, )", d, R"(, "t\u00e9xt", null, true, NaN], "b)", u, R"(": {}})"));
    p.add("tokens", [json]() {
        std::istringstream is(*json);
        zserio::BasicJsonTokenizer<std::allocator<uint8_t>> t(is, std::allocator<uint8_t>());
        std::string o;
        zserio::JsonToken k = t.getToken();
        while (k != zserio::JsonToken::END_OF_FILE)
        {
            k = t.next();
            o += vh::str(static_cast<int>(k), ",", t.getLine(), ",", t.getColumn(), " ");
        }
        std::istringstream bad("{\"a\": tru}");
        zserio::BasicJsonTokenizer<std::allocator<uint8_t>> t2(bad, std::allocator<uint8_t>());
        return o + caught([&]() {
            for (int i = 0; i < 9; ++i)
            {
                (void)t2.next();
            }
        });
    });
    // shared values, copied and compared
    using PA = zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>;
    const auto bits = p.own<zserio::BitBuffer>(std::vector<uint8_t>{1, 2, 3, static_cast<uint8_t>(u & 0xf8)}, 29);
    const auto bits2 = p.own<zserio::BitBuffer>(*bits);
    p.add("bit buffers", [bits, bits2]() {
        const zserio::BitBuffer copy(*bits);
        return vh::str(*bits == *bits2, *bits < *bits2, std::hash<zserio::BitBuffer>()(*bits), copy == *bits,
                vh::hex(copy.getData().data(), copy.getByteSize()));
    });
    // values without content and hashes of every basic type
    const auto empty = p.own<zserio::BitBuffer>();
    const auto empty2 = p.own<zserio::BitBuffer>(size_t(0));
    const auto oneBit = p.own<zserio::BitBuffer>(std::vector<uint8_t>{static_cast<uint8_t>(u & 0x80)}, 1);
    const auto whole = p.own<zserio::BitBuffer>(std::vector<uint8_t>{1, 2}, 16);
    p.add("edge bit buffers", [empty, empty2, oneBit, whole]() {
        const zserio::BitBuffer copy(*empty);
        std::string o;
        for (const zserio::BitBuffer* b : {static_cast<const zserio::BitBuffer*>(empty.get()), static_cast<const zserio::BitBuffer*>(empty2.get()), static_cast<const zserio::BitBuffer*>(oneBit.get()), static_cast<const zserio::BitBuffer*>(whole.get()), static_cast<const zserio::BitBuffer*>(&copy)})
        {
            const zserio::BitBuffer own(*b);
            o += vh::str(b->getBitSize(), b->getByteSize(), std::hash<zserio::BitBuffer>()(*b), own == *b, *b < *whole, *empty == *b,
                    zserio::BitBufferView(*b) == zserio::BitBufferView(own), " ");
        }
        return o;
    });
    const auto noBytes = p.own<zserio::Bytes>();
    const auto noString = p.own<zserio::String>();
    const auto noArray = p.own<zserio::Vector<zserio::VarInt32>>();
    const auto noAny = p.own<zserio::Any>();
    p.add("empty values", [noBytes, noString, noArray, noAny]() {
        const zserio::Any copy(*noAny);
        const zserio::ArrayView<const zserio::VarInt32> view(*noArray);
        zserio::BitBuffer b(64);
        zserio::BitStreamWriter w(b);
        zserio::detail::write(w, zserio::BytesView(*noBytes));
        zserio::detail::write(w, std::string_view(*noString));
        zserio::detail::write<arr::ArrayType::AUTO>(w, view);
        zserio::detail::writePacked<arr::ArrayType::AUTO>(w, view);
        zserio::BitStreamReader r(b);
        const auto bytes = r.readBytes();
        const auto str = r.readString();
        zserio::Vector<zserio::VarInt32> back(3);
        zserio::detail::readPacked<arr::ArrayType::AUTO>(r, back);
        return vh::str(copy.hasValue(), bytes.size(), str.size(), back.size(), w.getBitPosition(), view == view,
                zserio::calcHashCode(1U, *noBytes), std::hash<zserio::String>()(*noString), zserio::calcHashCode(1U, view),
                caught([&]() { (void)noAny->get<int>(); }));
    });
    const auto hashes = p.own<std::tuple<bool, int8_t, uint64_t, int64_t, float, double>>(
            true, static_cast<int8_t>(u), u, static_cast<int64_t>(u), static_cast<float>(d), d);
    p.add("hashes", [hashes]() {
        return std::apply([](const auto&... v) { return vh::str(zserio::calcHashCode(7U, v)...); }, *hashes);
    });
    const auto any = p.own<zserio::Any>(std::string(40, static_cast<char>('a' + u % 26)), std::allocator<uint8_t>());
    const auto anyP = p.own<zserio::ppmr::Any>(zserio::ppmr::String(30, 'z'), PA());
    const auto small = p.own<zserio::Any>(static_cast<uint16_t>(u));
    p.add("any", [any, small, anyP]() {
        const zserio::Any copy(*any);
        const zserio::Any copy2(*small, std::allocator<uint8_t>());
        const zserio::ppmr::Any copy3(*anyP);
        return copy.get<std::string>() + vh::str(copy2.get<uint16_t>(), small->isType<int>(), any->hasValue()) +
                text(copy3.get<zserio::ppmr::String>()) + caught([&]() { (void)small->get<int>(); });
    });
    const auto opt = p.own<zserio::Optional<zserio::String>>(zserio::String(u % 50, 'o'));
    const auto none = p.own<zserio::Optional<zserio::String>>();
    p.add("optional", [opt, none]() {
        const zserio::Optional<zserio::String> copy(*opt);
        return vh::str(copy == *opt, *opt < *none, *none == *opt, std::hash<zserio::Optional<zserio::String>>()(*opt)) + text(*copy) +
                caught([&]() { (void)none->value(); });
    });
    enum class Idx : size_t
    {
        A,
        B,
        C
    };
    using Var = zserio::BasicVariant<std::allocator<uint8_t>, Idx, zserio::UInt8, zserio::String, objs::PObj>;
    const auto var = p.own<Var>(zserio::in_place_index<Idx::B>, zserio::String(u % 60, 'v'));
    p.add("variant", [var]() {
        const Var copy(*var);
        return vh::str(static_cast<int>(copy.index()), zserio::get<Idx::B>(copy) == zserio::get<Idx::B>(*var), zserio::get_if<Idx::A>(var.get()) == nullptr,
                caught([&]() { (void)zserio::get<Idx::A>(*var); }));
    });
    const auto ext = p.own<zserio::Extended<zserio::String>>(zserio::String(u % 60, 'e'));
    p.add("extended", [ext]() {
        const zserio::Extended<zserio::String> copy(*ext);
        return vh::str(copy.isPresent(), *copy == **ext);
    });
    // files
    const std::string shared = vh::scratchDir() + "/shared.bin";
    zserio::writeBufferToFile(bits->getBuffer(), 32, zserio::BitsTag(), shared);
    p.add("files", [shared, u]() {
        static std::atomic<unsigned> number{0};
        const std::string own = vh::scratchDir() + vh::str("/own", number.fetch_add(1, std::memory_order_relaxed), ".bin");
        const auto got = zserio::readBufferFromFile(shared);
        const std::vector<uint8_t> bytes(17, static_cast<uint8_t>(u));
        zserio::writeBufferToFile(bytes.data(), bytes.size(), own);
        const auto back = zserio::readBufferFromFile(own);
        ::unlink(own.c_str());
        return vh::hex(got.getBuffer(), got.getByteSize()) + vh::hex(back.getBuffer(), back.getByteSize()) +
                caught([&]() { (void)zserio::readBufferFromFile(vh::scratchDir() + "/nosuch"); }).substr(0, 10);
    });
}

namespace
{

struct Mark
{
    uint32_t begin;
    uint32_t end;
    uint32_t op;
};

constexpr unsigned THREADS = 8;

std::string runOp(const Op& op)
{
    try
    {
        return op.f();
    }
    catch (const std::exception& e)
    {
        return std::string("exception ") + e.what();
    }
}

struct Outcome
{
    uint64_t executions = 0;
    uint64_t overlaps = 0; // pairs of executions that overlapped in time
    uint64_t sameOverlaps = 0; // ... of the same operation
    uint64_t history = 0; // hash of the order in which executions began and ended
    std::string problem;
};

// runs every operation `rounds` times in each thread; in step: all threads execute the same operation at the same moment
Outcome execute(const Plan& p, bool inStep, unsigned rounds, uint64_t seed)
{
    Outcome out;
    const size_t n = p.ops.size();
    std::vector<std::vector<std::string>> results(THREADS, std::vector<std::string>(n));
    std::vector<std::vector<Mark>> marks(THREADS);
    std::vector<std::string> problems(THREADS);
    std::atomic<uint32_t> clock{0};
    std::atomic<unsigned> arrived{0};
    const auto meet = [&](unsigned times) {
        arrived.fetch_add(1);
        while (arrived.load() < times * THREADS)
        {
            std::this_thread::yield();
        }
    };
    std::vector<std::thread> threads;
    for (unsigned t = 0; t < THREADS; ++t)
    {
        threads.emplace_back([&, t]() {
            vh::Rng r(vh::mix(seed, inStep ? 0 : t + 1));
            unsigned meetings = 0;
            meet(++meetings);
            for (unsigned round = 0; round < rounds; ++round)
            {
                std::vector<size_t> order(n);
                for (size_t i = 0; i < n; ++i)
                {
                    order[i] = i;
                }
                for (size_t i = n; i > 1; --i)
                {
                    std::swap(order[i - 1], order[r.below(i)]);
                }
                for (const size_t i : order)
                {
                    if (inStep)
                    {
                        meet(++meetings);
                    }
                    const uint32_t from = clock.fetch_add(1, std::memory_order_relaxed);
                    std::string got = runOp(p.ops[i]);
                    const uint32_t to = clock.fetch_add(1, std::memory_order_relaxed);
                    marks[t].push_back({from, to, static_cast<uint32_t>(i)});
                    if (round == 0)
                    {
                        results[t][i] = std::move(got);
                    }
                    else if (results[t][i] != got && problems[t].empty())
                    {
                        problems[t] = vh::str(p.ops[i].name, " gave ", results[t][i], " and then ", got);
                    }
                }
            }
        });
    }
    for (auto& t : threads)
    {
        t.join();
    }
    for (const auto& s : problems)
    {
        if (!s.empty() && out.problem.empty())
        {
            out.problem = s;
        }
    }
    for (size_t i = 0; i < n; ++i)
    {
        const std::string alone = runOp(p.ops[i]);
        for (unsigned t = 0; t < THREADS; ++t)
        {
            if (results[t][i] != alone && out.problem.empty())
            {
                out.problem = vh::str(p.ops[i].name, " gave ", results[t][i], " in a thread and ", alone, " alone");
            }
        }
    }
    std::vector<std::pair<uint32_t, uint32_t>> events; // ticket, thread
    std::vector<Mark> all;
    for (unsigned t = 0; t < THREADS; ++t)
    {
        out.executions += marks[t].size();
        for (const auto& m : marks[t])
        {
            events.push_back({m.begin, t});
            events.push_back({m.end, t});
            all.push_back(m);
        }
    }
    std::sort(events.begin(), events.end());
    for (const auto& e : events)
    {
        out.history = vh::mix(out.history, e.second);
    }
    std::sort(all.begin(), all.end(), [](const Mark& a, const Mark& b) { return a.begin < b.begin; });
    for (size_t i = 0; i < all.size(); ++i)
    {
        for (size_t k = i + 1; k < all.size() && all[k].begin < all[i].end; ++k)
        {
            ++out.overlaps;
            out.sameOverlaps += all[k].op == all[i].op ? 1 : 0;
        }
    }
    return out;
}

// a fresh process for every case: whatever is initialised on first use is initialised by racing threads
template <typename B>
void inFreshProcess(vh::Case& c, bool inStep, unsigned rounds, B&& buildPlan)
{
    const std::string resultFile = vh::scratchDir() + "/result";
    const std::string errFile = vh::scratchDir() + "/stderr";
    ::unlink(resultFile.c_str());
    const uint64_t seed = c.rng.next();
    ::fflush(nullptr);
    const pid_t pid = ::fork();
    if (pid == 0)
    {
        const int fd = ::open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        ::dup2(fd, 2);
        ::dup2(fd, 1);
        ::alarm(80);
        Plan p;
        vh::Rng r(seed);
        std::string problem;
        try
        {
            buildPlan(p, r);
        }
        catch (const std::exception& e)
        {
            problem = std::string("plan: ") + e.what();
        }
        Outcome o;
        if (problem.empty())
        {
            o = execute(p, inStep, rounds, vh::mix(seed, 77));
        }
        else
        {
            o.problem = problem;
        }
        {
            std::ofstream f(resultFile);
            f << o.executions << " " << o.overlaps << " " << o.sameOverlaps << " " << o.history << " " << p.ops.size() << "\n" << o.problem;
        }
        ::_exit(0);
    }
    int status = 0;
    while (::waitpid(pid, &status, 0) < 0 && errno == EINTR)
    {
    }
    if (!WIFEXITED(status) || WEXITSTATUS(status) != 0)
    {
        std::ifstream f(errFile);
        std::stringstream all;
        all << f.rdbuf();
        std::string t = all.str();
        std::string key = "crash";
        if (t.find("ThreadSanitizer: data race") != std::string::npos)
        {
            key = "data-race";
        }
        else if (t.find("ThreadSanitizer:") != std::string::npos)
        {
            key = "thread-sanitizer";
        }
        else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM)
        {
            key = "hang";
        }
        c.fail(key, vh::str("status ", status, " ", t.substr(0, 6000)));
    }
    std::ifstream f(resultFile);
    uint64_t executions = 0;
    uint64_t overlaps = 0;
    uint64_t same = 0;
    uint64_t history = 0;
    uint64_t ops = 0;
    f >> executions >> overlaps >> same >> history >> ops;
    std::string problem;
    std::getline(f, problem);
    std::stringstream rest;
    rest << f.rdbuf();
    problem += rest.str();
    VH_CHECK(c, problem.empty(), "result-differs", problem.substr(0, 3000));
    VH_CHECK(c, executions == ops * THREADS * rounds && ops > 0, "harness-incomplete", executions, " of ", ops);
    c.eval(executions);
    c.count("operations", ops);
    c.count("executions", executions);
    c.count("overlapping_pairs", overlaps);
    c.count("overlapping_pairs_of_the_same_operation", same);
    c.distinct(history);
    if (c.wantSample())
    {
        c.sample(vh::str(ops, " operations, ", executions, " executions, ", overlaps, " overlapping pairs, order hash ", history));
    }
}

void generated(vh::Case& c, bool warm)
{
    const bool ppmr = c.idx % 2 != 0;
    const uint64_t type = c.idx / 2;
    const bool inStep = c.rng.flip();
    const unsigned rounds = c.thorough ? 6 : 2;
    inFreshProcess(c, inStep, rounds, [&](Plan& p, vh::Rng& r) {
        if (ppmr)
        {
            objectOps_ppmr(p, r, warm, type);
        }
        else
        {
            objectOps_std(p, r, warm, type);
        }
    });
    c.count(inStep ? "in_step" : "shuffled");
}

} // namespace

VH_SECTION(first_use, 240, 1500)
{
    generated(c, false);
}
VH_SECTION(shared_values, 240, 1500)
{
    generated(c, true);
}
VH_SECTION(type_information, 48, 400)
{
    inFreshProcess(c, c.idx % 4 < 2, c.thorough ? 4 : 2, [&](Plan& p, vh::Rng& r) {
        if (c.idx % 2 != 0)
        {
            typeInfoOps_ppmr(p, r, false, 0);
        }
        else
        {
            typeInfoOps_std(p, r, false, 0);
        }
    });
}
VH_SECTION(runtime, 48, 800)
{
    inFreshProcess(c, c.idx % 2 != 0, c.thorough ? 6 : 3, [&](Plan& p, vh::Rng& r) { runtimeOps(p, r, false, 0); });
}
VH_SECTION(everything, 24, 300)
{
    inFreshProcess(c, c.idx % 4 == 0, 2, [&](Plan& p, vh::Rng& r) {
        for (int k = 0; k < 3; ++k)
        {
            objectOps_std(p, r, r.flip(), r.below(15));
            objectOps_ppmr(p, r, r.flip(), r.below(15));
        }
        typeInfoOps_std(p, r, false, 0);
        typeInfoOps_ppmr(p, r, false, 0);
        runtimeOps(p, r, false, 0);
    });
}

} // namespace c26
