// C25: file helpers against the files seen by plain system calls, with failing devices, limits, permissions and injected faults
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#include "tobj_std.h"
#include "zserio/DebugStringUtil.h"
#include "zserio/FileUtil.h"
#include "zserio/SerializeUtil.h"

// faults injected below the streams ---------------------------------------------------------------------------
extern "C" ssize_t __interceptor_read(int, void*, size_t);
extern "C" ssize_t __interceptor_write(int, const void*, size_t);
extern "C" ssize_t __interceptor_writev(int, const struct iovec*, int);
extern "C" int __interceptor_fclose(FILE*);

namespace
{

struct Faults
{
    bool armed = false;
    int readFails = -1; // the n-th read fails
    int readEof = -1; // the n-th read finds the end of the file
    int writeFails = -1;
    bool closeFails = false;
    bool shortTransfers = false;
    bool interrupts = false;
    vh::Rng* rng = nullptr;
    // observed
    int reads = 0;
    int writes = 0;
    int closes = 0;
    int fired = 0;
};
Faults g_f;

bool interrupted()
{
    if (g_f.interrupts && g_f.rng->chance(30))
    {
        ++g_f.fired;
        errno = EINTR;
        return true;
    }
    return false;
}

bool writeFault()
{
    const int n = g_f.writes++;
    if (g_f.writeFails >= 0 && n >= g_f.writeFails)
    {
        ++g_f.fired;
        errno = ENOSPC;
        return true;
    }
    return interrupted();
}

size_t shorter(size_t n)
{
    if (g_f.shortTransfers && n > 1)
    {
        ++g_f.fired;
        return 1 + g_f.rng->below(n - 1);
    }
    return n;
}

} // namespace

extern "C" ssize_t read(int fd, void* buf, size_t n)
{
    if (g_f.armed)
    {
        const int k = g_f.reads++;
        if (g_f.readFails >= 0 && k >= g_f.readFails)
        {
            ++g_f.fired;
            errno = EIO;
            return -1;
        }
        if (g_f.readEof >= 0 && k >= g_f.readEof)
        {
            ++g_f.fired;
            return 0;
        }
        if (interrupted())
        {
            return -1;
        }
        n = shorter(n);
    }
    return __interceptor_read(fd, buf, n);
}
extern "C" ssize_t write(int fd, const void* buf, size_t n)
{
    if (g_f.armed)
    {
        if (writeFault())
        {
            return -1;
        }
        n = shorter(n);
    }
    return __interceptor_write(fd, buf, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int n)
{
    if (g_f.armed)
    {
        if (writeFault())
        {
            return -1;
        }
        if (g_f.shortTransfers)
        {
            for (int i = 0; i < n; ++i)
            {
                if (v[i].iov_len > 0)
                {
                    return __interceptor_write(fd, v[i].iov_base, shorter(v[i].iov_len));
                }
            }
        }
    }
    return __interceptor_writev(fd, v, n);
}
extern "C" int fclose(FILE* f)
{
    if (g_f.armed)
    {
        ++g_f.closes;
        if (g_f.closeFails)
        {
            ++g_f.fired;
            (void)__interceptor_fclose(f);
            errno = EIO;
            return EOF;
        }
    }
    return __interceptor_fclose(f);
}

namespace
{

struct Arm
{
    Arm(const Faults& f, vh::Rng& rng)
    {
        g_f = f;
        g_f.rng = &rng;
        g_f.armed = true;
    }
    ~Arm()
    {
        g_f.armed = false;
    }
};

// restores the identity, limits and signals of the process
struct Process
{
    Process()
    {
        old = std::signal(SIGXFSZ, SIG_IGN);
        getrlimit(RLIMIT_FSIZE, &lim);
    }
    ~Process()
    {
        setrlimit(RLIMIT_FSIZE, &lim);
        std::signal(SIGXFSZ, old);
        if (changed)
        {
            if (seteuid(0) != 0)
            {
                abort();
            }
        }
    }
    void limit(size_t n)
    {
        rlimit l = lim;
        l.rlim_cur = n;
        setrlimit(RLIMIT_FSIZE, &l);
    }
    bool nobody()
    {
        if (geteuid() != 0 || seteuid(65534) != 0)
        {
            return false;
        }
        changed = true;
        return true;
    }
    rlimit lim;
    void (*old)(int);
    bool changed = false;
};

using Bytes = std::vector<uint8_t>;

std::string fileName(vh::Rng& r)
{
    switch (r.below(8))
    {
    case 0:
        return "/f \xc3\xa9 x";
    case 1:
        return "/" + std::string(246, 'l'); // close to the longest possible
    case 2:
        return std::string(300, '/') + "./././f.bin"; // a long path of a short name
    default:
        return "/f.bin";
    }
}

// file names as views which are followed by other characters, never by a zero
struct Name
{
    explicit Name(const std::string& s, vh::Rng& r) :
            text(s + (r.flip() ? ".wrong" : "X")),
            view(text.data(), s.size()),
            exact(s)
    {
        if (r.chance(30))
        {
            mem.reset(new char[s.size()]);
            std::memcpy(mem.get(), s.data(), s.size());
            view = std::string_view(mem.get(), s.size());
        }
    }
    std::string text;
    std::unique_ptr<char[]> mem;
    std::string_view view;
    std::string exact;
};

bool slurp(const std::string& f, Bytes& out)
{
    const int fd = ::open(f.c_str(), O_RDONLY);
    if (fd < 0)
    {
        return false;
    }
    out.clear();
    uint8_t buf[65536];
    ssize_t n;
    while ((n = __interceptor_read(fd, buf, sizeof(buf))) > 0)
    {
        out.insert(out.end(), buf, buf + n);
    }
    ::close(fd);
    return n == 0;
}

void spit(const std::string& f, const Bytes& b)
{
    const int fd = ::open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    size_t done = 0;
    while (done < b.size())
    {
        const ssize_t n = __interceptor_write(fd, b.data() + done, b.size() - done);
        if (n <= 0)
        {
            abort();
        }
        done += static_cast<size_t>(n);
    }
    ::close(fd);
}

size_t randomSize(vh::Rng& r)
{
    switch (r.below(8))
    {
    case 0:
        return 0;
    case 1:
        return r.below(20);
    case 2: // around the buffer size of the streams
        return 8191 + r.below(4);
    case 3:
        return 1023 + r.below(4);
    case 4:
        return r.below(300000);
    default:
        return r.below(3000);
    }
}

Bytes randomBytes(vh::Rng& r, size_t n)
{
    Bytes b(n);
    uint64_t x = r.next();
    for (auto& v : b)
    {
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        v = static_cast<uint8_t>(x >> 56);
    }
    return b;
}

// the three ways of writing; bitSize is a multiple of 8 for the second one
void writeAny(int way, const Bytes& exact, size_t bitSize, std::string_view name)
{
    switch (way)
    {
    case 0:
        zserio::writeBufferToFile(exact.data(), bitSize, zserio::BitsTag(), name);
        break;
    case 1:
        zserio::writeBufferToFile(exact.data(), bitSize / 8, name);
        break;
    default:
    {
        const zserio::BitBuffer b(zserio::Span<const uint8_t>(exact.data(), exact.size()), bitSize);
        zserio::writeBufferToFile(b, name);
    }
    }
}

template <typename F>
bool throwsRuntimeException(vh::Case& c, const F& f, const char* what)
{
    try
    {
        f();
        return false;
    }
    catch (const zserio::CppRuntimeException& e)
    {
        VH_CHECK(c, std::strlen(e.what()) > 0, "empty-message", what);
        return true;
    }
    catch (const std::exception& e)
    {
        c.fail("wrong-exception", vh::str(what, ": ", e.what()));
    }
}

struct Written
{
    Bytes bytes;
    size_t bits;
    int way;
};

Written randomWrite(vh::Rng& r)
{
    Written w;
    w.bytes = randomBytes(r, randomSize(r));
    w.way = static_cast<int>(r.below(3));
    w.bits = w.bytes.size() * 8;
    if (w.way != 1 && w.bits > 0)
    {
        w.bits -= r.below(8);
    }
    return w;
}

// what the file must contain: the bits beyond the bit size are whatever the writer's buffer has
void checkContent(vh::Case& c, const Written& w, const Bytes& got, const char* oracle)
{
    VH_EQ(c, got.size(), w.bytes.size(), oracle, "bytes");
    if (got.empty())
    {
        return;
    }
    VH_CHECK(c, std::memcmp(got.data(), w.bytes.data(), got.size() - 1) == 0, oracle, "content");
    const unsigned rest = w.bits % 8;
    const uint8_t mask = rest == 0 ? 0xFF : static_cast<uint8_t>(0xFF << (8 - rest));
    VH_EQ(c, got.back() & mask, w.bytes.back() & mask, oracle, "last byte");
}

void checkRead(vh::Case& c, const zserio::BitBuffer& b, const Bytes& file, const char* oracle)
{
    VH_EQ(c, b.getBitSize(), file.size() * 8, oracle, "bit size");
    VH_EQ(c, b.getByteSize(), file.size(), oracle, "byte size");
    VH_CHECK(c, file.empty() || std::memcmp(b.getBuffer(), file.data(), file.size()) == 0, oracle, "content");
}

} // namespace

VH_SECTION(buffers, 400, 12000)
{
    const Name name(vh::scratchDir() + fileName(c.rng), c.rng);
    unlink(name.exact.c_str());
    const size_t rounds = 1 + c.rng.below(4); // replacing longer and shorter files
    for (size_t i = 0; i < rounds; ++i)
    {
        const Written w = randomWrite(c.rng);
        c.trace(vh::str("write ", w.bits, " bits way ", w.way));
        Faults f;
        f.shortTransfers = c.rng.chance(30);
        f.interrupts = c.rng.chance(20);
        const bool noisy = f.shortTransfers || f.interrupts;
        {
            Arm arm(f, c.rng);
            writeAny(w.way, w.bytes, w.bits, name.view);
        }
        c.count("transfers_disturbed", static_cast<uint64_t>(g_f.fired));
        Bytes got;
        VH_CHECK(c, slurp(name.exact, got), "no-file", name.exact);
        checkContent(c, w, got, "written");
        VH_CHECK(c, access(name.text.c_str(), F_OK) != 0, "wrong-name", name.text);
        {
            zserio::BitBuffer b;
            {
                Arm arm(noisy ? f : Faults(), c.rng);
                b = zserio::readBufferFromFile(name.view);
            }
            checkRead(c, b, got, "read");
        }
        c.count(w.bits % 8 != 0 ? "unaligned" : (w.bits == 0 ? "empty" : "aligned"));
        c.distinct(vh::mix(w.bits * 3 + static_cast<uint64_t>(w.way), w.bytes.empty() ? 0 : w.bytes[0]));
    }
    // any file content comes back
    const Bytes raw = randomBytes(c.rng, randomSize(c.rng));
    spit(name.exact, raw);
    checkRead(c, zserio::readBufferFromFile(name.view), raw, "read-plain-file");
    unlink(name.exact.c_str());
}

VH_SECTION(faults, 400, 12000)
{
    // a failing read, write or close is reported
    const Name name(vh::scratchDir() + "/fault.bin", c.rng);
    unlink(name.exact.c_str());
    const Written w = randomWrite(c.rng);
    Faults f;
    const uint64_t kind = c.rng.below(6);
    switch (kind)
    {
    case 0:
        f.writeFails = static_cast<int>(c.rng.below(3));
        break;
    case 1:
        f.writeFails = static_cast<int>(c.rng.below(5));
        f.shortTransfers = true;
        break;
    case 2:
        f.closeFails = true;
        break;
    case 3:
        f.readFails = static_cast<int>(c.rng.below(3));
        f.shortTransfers = c.rng.flip();
        break;
    case 4:
        f.readEof = static_cast<int>(c.rng.below(3));
        f.shortTransfers = c.rng.flip();
        break;
    default:
    {
        // file size limit of the process
        Process p;
        const size_t lim = c.rng.below(w.bytes.size() + 1);
        bool thrown;
        p.limit(lim);
        thrown = throwsRuntimeException(
                c, [&] { writeAny(w.way, w.bytes, w.bits, name.view); }, "size limit");
        p.limit(p.lim.rlim_max);
        VH_EQ(c, thrown, lim < w.bytes.size(), "file-size-limit", lim, " of ", w.bytes.size());
        c.count("size_limits");
        c.distinct(vh::mix(lim, w.bytes.size()));
        unlink(name.exact.c_str());
        return;
    }
    }
    const bool reading = kind == 3 || kind == 4;
    if (reading)
    {
        spit(name.exact, w.bytes);
    }
    bool thrown;
    zserio::BitBuffer b;
    {
        Arm arm(f, c.rng);
        thrown = throwsRuntimeException(
                c,
                [&] {
                    if (reading)
                    {
                        b = zserio::readBufferFromFile(name.view);
                    }
                    else
                    {
                        writeAny(w.way, w.bytes, w.bits, name.view);
                    }
                },
                "injected fault");
    }
    const int hard = f.shortTransfers ? -1 : g_f.fired; // short transfers count as fired, too
    Bytes got;
    const bool have = slurp(name.exact, got);
    if (!thrown)
    {
        // success may only be claimed for a complete transfer
        VH_CHECK(c, have, "silent-failure", "no file");
        if (reading)
        {
            checkRead(c, b, got, "silent-read-failure");
        }
        else
        {
            checkContent(c, w, got, "silent-write-failure");
            VH_CHECK(c, !f.closeFails, "silent-close-failure", "");
        }
        c.count("not_hit");
    }
    else
    {
        VH_CHECK(c, hard != 0, "failure-without-fault", "");
        c.count(kind == 2 ? "close_failed" : (reading ? "read_failed" : "write_failed"));
    }
    // and the name is usable again
    writeAny(w.way, w.bytes, w.bits, name.view);
    VH_CHECK(c, slurp(name.exact, got), "no-file", "");
    checkContent(c, w, got, "written-after-failure");
    c.distinct(vh::mix(vh::mix(kind, w.bits),
            static_cast<uint64_t>(f.writeFails * 100 + f.readFails * 10 + f.readEof + (f.shortTransfers ? 5000 : 0))));
    unlink(name.exact.c_str());
}

VH_SECTION(paths, 120, 2000)
{
    // names which cannot be written or read
    const std::string dir = vh::scratchDir();
    const Written w = randomWrite(c.rng);
    struct Try
    {
        std::string name;
        bool write;
        bool read;
        bool needsData;
    };
    const std::string sub = dir + "/sub";
    mkdir(sub.c_str(), 0755);
    const std::string loop = dir + "/loop";
    (void)symlink(loop.c_str(), loop.c_str());
    const std::string plain = dir + "/plain";
    spit(plain, Bytes{1, 2, 3});
    const std::vector<Try> tries = {
            {dir + "/missing/f", true, true, false},
            {dir + "/missing", false, true, false},
            {sub, true, true, false},
            {sub + "/", true, true, false},
            {dir, true, true, false},
            {loop, true, true, false},
            {plain + "/f", true, true, false},
            {dir + "/" + std::string(300, 'n'), true, true, false},
            {dir + "/" + std::string(5000, 'p'), true, true, false},
            {"", true, true, false},
            {"/dev/full", true, false, true},
    };
    for (const Try& t : tries)
    {
        const Name name(t.name, c.rng);
        c.trace(vh::str("path '", t.name.substr(0, 60), "'"));
        if (t.write && !(t.needsData && w.bytes.empty()))
        {
            VH_CHECK(c,
                    throwsRuntimeException(
                            c, [&] { writeAny(w.way, w.bytes, w.bits, name.view); }, "path"),
                    "write-not-reported", "'", t.name.substr(0, 80), "' ", w.bits, " bits");
            c.count("unwritable");
        }
        if (t.read)
        {
            VH_CHECK(c, throwsRuntimeException(c, [&] { (void)zserio::readBufferFromFile(name.view); }, "path"),
                    "read-not-reported", "'", t.name.substr(0, 80), "'");
            c.count("unreadable");
        }
    }
    // permissions
    {
        const std::string f = dir + "/private";
        spit(f, Bytes{9, 8, 7});
        chmod(f.c_str(), 0000);
        Process p;
        if (p.nobody())
        {
            const Name name(f, c.rng);
            VH_CHECK(c, throwsRuntimeException(c, [&] { (void)zserio::readBufferFromFile(name.view); }, "permission"),
                    "permission-read-not-reported", "");
            VH_CHECK(c,
                    throwsRuntimeException(
                            c, [&] { writeAny(w.way, w.bytes, w.bits, name.view); }, "permission"),
                    "permission-write-not-reported", "");
            const Name fresh(dir + "/fresh", c.rng);
            VH_CHECK(c,
                    throwsRuntimeException(
                            c, [&] { writeAny(w.way, w.bytes, w.bits, fresh.view); }, "permission"),
                    "permission-create-not-reported", "");
            c.count("permissions");
        }
    }
    {
        const std::string f = dir + "/private";
        Bytes got;
        chmod(f.c_str(), 0644);
        VH_CHECK(c, slurp(f, got) && got == (Bytes{9, 8, 7}), "refused-file-changed", "");
        unlink(f.c_str());
    }
    // links and files of other modes are followed
    {
        const std::string link = dir + "/link";
        (void)symlink(plain.c_str(), link.c_str());
        const Name name(link, c.rng);
        writeAny(w.way, w.bytes, w.bits, name.view);
        Bytes got;
        VH_CHECK(c, slurp(plain, got), "no-file", "link");
        checkContent(c, w, got, "written-through-link");
        checkRead(c, zserio::readBufferFromFile(name.view), got, "read-through-link");
        unlink(link.c_str());
    }
    unlink(plain.c_str());
    unlink(loop.c_str());
    rmdir(sub.c_str());
    c.distinct(w.bits);
}

namespace
{

using namespace tobj;

template <typename T>
void objectFiles(vh::Case& c, const Node& n)
{
    namespace NS = tobj::std_allocator;
    T obj;
    NS::build(n, obj);
    const auto targs = NS::args(n, static_cast<T*>(nullptr));
    const Bytes want = encodeBytes(n);
    std::apply(
            [&](const auto&... a) {
                const zserio::View<T> view(obj, a...);
                const std::string exact = vh::scratchDir() + "/o.bin";
                const Name name(exact, c.rng);
                const int way = static_cast<int>(c.rng.below(3));
                const auto put = [&](std::string_view f) {
                    switch (way)
                    {
                    case 0:
                        zserio::serializeToFile(view, f);
                        break;
                    case 1:
                        zserio::serializeToFile(zserio::DataView<T>(obj, a...), f);
                        break;
                    default:
                        zserio::serializeToFile(obj, f, a...);
                    }
                };
                const auto get = [&](std::string_view f) {
                    T data;
                    if (way == 0)
                    {
                        (void)zserio::deserializeFromFile(f, data, a...);
                        return NS::extract(data);
                    }
                    if (way == 1)
                    {
                        (void)zserio::deserializeFromFile(f, zserio::ArrayPreallocation(1000), data, a...);
                        return NS::extract(data);
                    }
                    const auto v = zserio::deserializeFromFile<T>(f, a...);
                    return NS::extract(v.zserioData());
                };
                if (c.rng.flip())
                {
                    spit(exact, randomBytes(c.rng, want.size() + c.rng.below(5000)));
                }
                put(name.view);
                Bytes got;
                VH_CHECK(c, slurp(exact, got), "no-file", "");
                VH_CHECK(c, got == want, "object-file", got.size(), " of ", want.size());
                VH_CHECK(c, access(name.text.c_str(), F_OK) != 0, "wrong-name", name.text);
                const Node back = get(name.view);
                c.check(back == n, "object-back", diff(back, n));
                if (!want.empty())
                {
                    VH_CHECK(c, throwsRuntimeException(c, [&] { put("/dev/full"); }, "full"), "full-device-not-reported", "");
                    Process p;
                    const size_t lim = c.rng.below(want.size());
                    p.limit(lim);
                    const bool thrown = throwsRuntimeException(c, [&] { put(name.view); }, "limit");
                    p.limit(p.lim.rlim_max);
                    VH_CHECK(c, thrown, "size-limit-not-reported", lim, " of ", want.size());
                    // what was written up to there is a truncated object: reported or at least never read outside (bits
                    // missing at the end)
                    Faults f;
                    f.readFails = 0;
                    {
                        Arm arm(f, c.rng);
                        spit(exact, want);
                    }
                    bool thrown2;
                    {
                        Arm arm(f, c.rng);
                        thrown2 = throwsRuntimeException(c, [&] { (void)get(name.view); }, "read fault");
                    }
                    VH_CHECK(c, thrown2, "read-fault-not-reported", "");
                    c.count("object_faults");
                }
                unlink(exact.c_str());
                VH_CHECK(c, throwsRuntimeException(c, [&] { (void)get(name.view); }, "missing"), "missing-not-reported", "");
                VH_CHECK(c, throwsRuntimeException(c, [&] { put(vh::scratchDir() + "/no/such"); }, "missing"),
                        "missing-directory-not-reported", "");
                c.count("objects");
            },
            targs);
}

} // namespace

VH_SECTION(objects, 240, 6000)
{
    Gen gen(c.rng, Gen::ANY, 6, c.rng.chance(10) ? 20000 : 30);
    tobj::std_allocator::withAnyType(c.idx, [&](auto* t, auto g) {
        const Node n = g(gen);
        c.distinct(n.text());
        objectFiles<std::remove_pointer_t<decltype(t)>>(c, n);
    });
}

VH_SECTION(json, 150, 3000)
{
    using T = test_object::std_allocator::CreatorObject;
    Gen gen(c.rng, Gen::UTF8_NONUL, 6, c.rng.chance(10) ? 3000 : 30);
    const Node n = gen.creatorObject();
    T obj;
    tobj::std_allocator::build(n, obj);
    const uint8_t indent = static_cast<uint8_t>(c.rng.below(5));
    const std::string want = std::string(zserio::toJsonString(obj, indent));
    const std::string exact = vh::scratchDir() + "/o.json";
    const Name name(exact, c.rng);
    const int way = static_cast<int>(c.rng.below(2));
    const auto put = [&](std::string_view f) {
        if (way == 0)
        {
            zserio::toJsonFile(obj, f, indent);
        }
        else
        {
            zserio::DefaultWalkFilter filter;
            zserio::toJsonFile(obj, zserio::String(f), indent, filter); // this overload takes a string
        }
    };
    if (c.rng.flip())
    {
        spit(exact, randomBytes(c.rng, want.size() + c.rng.below(5000)));
    }
    Faults f;
    f.shortTransfers = c.rng.chance(30);
    f.interrupts = c.rng.chance(20);
    {
        Arm arm(f, c.rng);
        put(name.view);
    }
    Bytes got;
    VH_CHECK(c, slurp(exact, got), "no-file", "");
    VH_CHECK(c, std::string(got.begin(), got.end()) == want, "json-file", got.size(), " of ", want.size());
    VH_CHECK(c, access(name.text.c_str(), F_OK) != 0, "wrong-name", name.text);
    // reading the file is the same as reading the string
    bool readable = true;
    Node fromString;
    try
    {
        const auto r = zserio::fromJsonString<T>(want);
        fromString = tobj::std_allocator::extract(r);
    }
    catch (const zserio::CppRuntimeException&)
    {
        readable = false;
    }
    const auto get = [&] {
        if (way == 0)
        {
            const auto r = zserio::fromJsonFile<T>(name.view);
            return tobj::std_allocator::extract(r);
        }
        const auto p = zserio::fromJsonFile(zserio::typeInfo<T>(), name.view);
        return tobj::std_allocator::extract(zserio::ReflectableUtil::getValue<T>(p));
    };
    if (readable)
    {
        Node back;
        {
            Arm arm(f, c.rng);
            back = get();
        }
        c.check(back == fromString, "json-file-back", diff(back, fromString));
        c.count("json_read");
        Faults bad;
        bad.readFails = 0;
        bad.shortTransfers = false;
        {
            Arm arm(bad, c.rng);
            const bool thrown = throwsRuntimeException(c, [&] { (void)get(); }, "json read fault");
            VH_CHECK(c, thrown, "json-read-fault-not-reported", "");
        }
    }
    // failures
    VH_CHECK(c, throwsRuntimeException(c, [&] { put("/dev/full"); }, "full"), "json-full-device-not-reported", "");
    {
        Process p;
        const size_t lim = c.rng.below(want.size());
        p.limit(lim);
        const bool thrown = throwsRuntimeException(c, [&] { put(name.view); }, "limit");
        p.limit(p.lim.rlim_max);
        VH_CHECK(c, thrown, "json-size-limit-not-reported", lim, " of ", want.size());
    }
    {
        Faults bad;
        bad.closeFails = c.rng.flip();
        bad.writeFails = bad.closeFails ? -1 : 0;
        Arm arm(bad, c.rng);
        const bool thrown = throwsRuntimeException(c, [&] { put(name.view); }, "json fault");
        VH_CHECK(c, thrown, "json-write-fault-not-reported", bad.closeFails ? "close" : "write");
    }
    unlink(exact.c_str());
    VH_CHECK(c, throwsRuntimeException(c, [&] { (void)get(); }, "missing"), "json-missing-not-reported", "");
    VH_CHECK(c, throwsRuntimeException(c, [&] { put(vh::scratchDir() + "/no/such"); }, "missing"),
            "json-missing-directory-not-reported", "");
    c.count("json_files");
    c.distinct(want);
}

// a sparse file: sizes are not mistaken for error values
VH_SECTION_NOLEAK(huge, 1, 3)
{
    const std::string f = vh::scratchDir() + "/huge";
    const size_t sizes[] = {0xFFFFFFFFULL, 0x100000000ULL, 0xFFFFFFFEULL};
    const size_t size = sizes[c.idx % 3];
    const int fd = ::open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, static_cast<off_t>(size)) != 0 || pwrite(fd, "Z", 1, static_cast<off_t>(size - 1)) != 1)
    {
        c.count("no_sparse_files");
        ::close(fd);
        unlink(f.c_str());
        return;
    }
    ::close(fd);
    {
        const zserio::BitBuffer b = zserio::readBufferFromFile(f);
        VH_EQ(c, b.getBitSize(), size * 8, "huge-bit-size");
        VH_EQ(c, b.getBuffer()[size - 1], uint8_t('Z'), "huge-content");
        VH_EQ(c, b.getBuffer()[0], uint8_t(0), "huge-content");
    }
    unlink(f.c_str());
    c.count("files");
    c.distinct(size);
}
