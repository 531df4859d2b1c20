// What is reserved ahead of decoding stays within the configured limit, through every entry point which takes one and
// through those which use the default.
#include <cstdio>
#include <fstream>

#include "ref.h"
#include "vh.h"
#include "zserio/ArrayView.h"
#include "zserio/DataView.h"
#include "zserio/SerializeUtil.h"

namespace lim
{

// K 0: packed integers, 1: strings, 2: packed integers behind an aligned position, 3: byte sequences
template <int K>
struct L
{
    using allocator_type = std::allocator<uint8_t>;
    using Elem = std::conditional_t<K == 1, zserio::String, std::conditional_t<K == 3, zserio::Bytes, zserio::UInt64>>;
    L() = default;
    explicit L(const allocator_type& allocator) :
            v(allocator)
    {}
    zserio::Vector<Elem> v;
};

} // namespace lim

namespace zserio
{

template <int K>
class View<lim::L<K>>
{
public:
    explicit View(const lim::L<K>& data, uint32_t = 0) noexcept :
            m_data(&data)
    {}
    View(const lim::L<K>& data, const View&) noexcept :
            m_data(&data)
    {}
    const lim::L<K>& zserioData() const
    {
        return *m_data;
    }

private:
    const lim::L<K>* m_data;
};

namespace detail
{

template <int K>
struct ObjectTraits<lim::L<K>>
{
    template <typename... A>
    static View<lim::L<K>> read(BitStreamReader& reader, lim::L<K>& data, const A&... args)
    {
        if constexpr (K == 0)
        {
            detail::readPacked<ArrayType::AUTO>(reader, data.v);
        }
        else if constexpr (K == 2)
        {
            detail::readPacked<ArrayType::ALIGNED_AUTO>(reader, data.v);
        }
        else
        {
            detail::read<ArrayType::AUTO>(reader, data.v);
        }
        return View<lim::L<K>>(data, args...);
    }
};

} // namespace detail

} // namespace zserio

namespace
{

template <int K>
void limits(vh::Case& c)
{
    using T = lim::L<K>;
    using A = std::allocator<uint8_t>;
    vh::Rng& r = c.rng;
    // an array which claims far more elements than there are
    ref::Bits bits;
    const uint64_t claimed = (uint64_t(1) << r.range(19, 27)) + r.below(1000);
    ref::putVar(bits, ref::Var::SIZE, static_cast<ref::i128>(claimed));
    if constexpr (K == 0 || K == 2)
    {
        bits.put(1, 1);
        bits.put(r.range(1, 62), 6);
    }
    const size_t bytes = bits.size() / 8 + 1 + r.below(40);
    while (bits.size() < bytes * 8)
    {
        // empty strings and byte sequences, or lengths which exceed what is left
        bits.put(K == 0 || K == 2 ? r.ubits(8) : (r.chance(80) ? 0 : 0x7F), 8 - bits.size() % 8);
    }
    const auto data = bits.toBytes();
    const bool dflt = r.chance(30);
    static const size_t some[] = {0, 1, 7, 8, 31, 32, 100, 1000, 4096, 20000, 65536, 131071, 131072, 131073, 400000};
    const size_t limit = dflt ? size_t(128 * 1024) : some[r.below(sizeof(some) / sizeof(some[0]))];
    c.trace(vh::str("kind ", K, " claims ", claimed, " limit ", limit, dflt ? " default " : " ", vh::hex(data.data(), data.size())));
    // elements really present are at most one per bit or byte; a vector grows to at most twice what it holds
    const uint64_t present = K == 0 || K == 2 ? data.size() * 8 : data.size();
    // an exception object takes about 700 bytes
    const uint64_t allowed = std::max<uint64_t>({limit, 2 * sizeof(typename T::Elem) * (present + 1), data.size() + 64, 2048});
    const zserio::ArrayPreallocation lim{limit};
    const zserio::Span<const uint8_t> span(data.data(), data.size());
    const zserio::BasicBitBuffer<A> bb(span, data.size() * 8, A());
    bool threw = false;
    const auto run = [&](const char* entry, auto&& f) {
        vh::resetAllocStats();
        threw = false;
        try
        {
            f();
        }
        catch (const zserio::CppRuntimeException&)
        {
            threw = true;
        }
        VH_CHECK(c, vh::largestAlloc() <= allowed, std::string("limit:") + entry, "allocated ", vh::largestAlloc(), " limit ", limit,
                " data ", data.size(), " bytes, at most ", present, " elements");
        VH_CHECK(c, threw, std::string("accepted-forged-length:") + entry, claimed);
        c.count("reads");
    };
    const uint32_t arg = 5;
    T d0, d1, d2, d3, d4, d5, d6, d7;
    if (dflt)
    {
        run("deserialize(data)", [&]() { (void)zserio::deserialize(bb, d0); });
        run("deserialize(data,arg)", [&]() { (void)zserio::deserialize(bb, d1, arg); });
        run("deserialize<T>", [&]() { (void)zserio::deserialize<T>(bb); });
        run("deserialize<T>(alloc)", [&]() { (void)zserio::deserialize<T>(bb, A()); });
        run("deserializeFromBytes(data)", [&]() { (void)zserio::deserializeFromBytes(span, d2); });
        run("deserializeFromBytes<T>", [&]() { (void)zserio::deserializeFromBytes<T>(span); });
        run("deserializeFromBytes<T>(alloc)", [&]() { (void)zserio::deserializeFromBytes<T>(span, A()); });
    }
    else
    {
        run("deserialize(limit,data)", [&]() { (void)zserio::deserialize(bb, lim, d0); });
        run("deserialize(limit,data,arg)", [&]() { (void)zserio::deserialize(bb, lim, d1, arg); });
        run("deserialize<T>(limit)", [&]() { (void)zserio::deserialize<T>(bb, lim); });
        run("deserialize<T>(limit,alloc)", [&]() { (void)zserio::deserialize<T>(bb, lim, A()); });
        run("deserializeFromBytes(limit,data)", [&]() { (void)zserio::deserializeFromBytes(span, lim, d2); });
        run("deserializeFromBytes<T>(limit)", [&]() { (void)zserio::deserializeFromBytes<T>(span, lim); });
        run("deserializeFromBytes<T>(limit,alloc)", [&]() { (void)zserio::deserializeFromBytes<T>(span, lim, A()); });
        run("reader", [&]() {
            zserio::BitStreamReader reader(span, lim);
            (void)zserio::detail::read(reader, d3);
        });
        run("reader(bits)", [&]() {
            zserio::BitStreamReader reader(span, data.size() * 8, lim);
            (void)zserio::detail::read(reader, d4);
        });
        run("reader(bit buffer)", [&]() {
            zserio::BitStreamReader reader(bb, lim);
            (void)zserio::detail::read(reader, d5);
        });
    }
    if (c.rng.chance(25))
    {
        const std::string f = vh::scratchDir() + "/limit.bin";
        {
            std::ofstream out(f, std::ios::binary | std::ios::trunc);
            out.write(reinterpret_cast<const char*>(data.data()), static_cast<std::streamsize>(data.size()));
        }
        // a file stream has a buffer of its own
        const auto file = [&](const char* entry, auto&& g) {
            vh::resetAllocStats();
            threw = false;
            try
            {
                g();
            }
            catch (const zserio::CppRuntimeException&)
            {
                threw = true;
            }
            VH_CHECK(c, vh::largestAlloc() <= std::max<uint64_t>(allowed, 16384), std::string("limit:") + entry, "allocated ",
                    vh::largestAlloc(), " limit ", limit, " data ", data.size(), " bytes");
            VH_CHECK(c, threw, std::string("accepted-forged-length:") + entry, claimed);
            c.count("file_reads");
        };
        if (dflt)
        {
            file("deserializeFromFile(data)", [&]() { (void)zserio::deserializeFromFile(f, d6); });
            file("deserializeFromFile<T>", [&]() { (void)zserio::deserializeFromFile<T>(f); });
        }
        else
        {
            file("deserializeFromFile(limit,data)", [&]() { (void)zserio::deserializeFromFile(f, lim, d6); });
            file("deserializeFromFile(limit,data,arg)", [&]() { (void)zserio::deserializeFromFile(f, lim, d7, arg); });
            file("deserializeFromFile<T>(limit)", [&]() { (void)zserio::deserializeFromFile<T>(f, lim); });
        }
        (void)std::remove(f.c_str());
    }
    c.count("arrays");
    c.distinct(vh::mix(claimed * 8 + K, limit));
}

} // namespace

VH_SECTION(limits, 4000, 100000)
{
    switch (c.idx % 4)
    {
    case 0:
        limits<0>(c);
        break;
    case 1:
        limits<1>(c);
        break;
    case 2:
        limits<2>(c);
        break;
    default:
        limits<3>(c);
        break;
    }
}
