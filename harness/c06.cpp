#include "c06.h"

std::vector<std::pair<std::string, arr::Body>>& arr::bodies()
{
    static auto* b = new std::vector<std::pair<std::string, arr::Body>>;
    return *b;
}

// case index selects the element type
VH_SECTION(arrays, 57 * 120, 57 * 3000)
{
    auto& b = arr::bodies();
    b[c.idx % b.size()].second(c);
}

static void hugeLength(vh::Case& c)
{
    // a claimed length that no buffer can hold is refused without allocating for it
    auto& r = c.rng;
    arr::ExactBuffer src(size_t(64));
    static const size_t lens[] = {9, 100, size_t(1) << 31, size_t(1) << 32, (size_t(1) << 58) + 3, size_t(1) << 60,
            size_t(1) << 61, size_t(1) << 62, size_t(1) << 63, ~size_t(0), (size_t(1) << 61) + 1};
    const size_t n = r.chance(70) ? r.pick(lens) : static_cast<size_t>(r.next() | 64);
    const auto tryRead = [&](auto tag, auto packed) {
        using T = typename decltype(tag)::type;
        zserio::BitStreamReader reader(src.data.get(), 64, zserio::BitsTag());
        zserio::Vector<T> v;
        vh::resetAllocStats();
        try
        {
            if constexpr (decltype(packed)::value)
            {
                zserio::detail::readPacked<zserio::detail::ArrayType::NORMAL>(reader, v, n);
            }
            else
            {
                zserio::detail::read<zserio::detail::ArrayType::NORMAL>(reader, v, n);
            }
            c.fail("huge-length-accepted", vh::str(n));
        }
        catch (const zserio::CppRuntimeException&)
        {}
        c.check(vh::largestAlloc() <= (2U << 20), "huge-length-allocation", vh::str("length ", n, " allocated ", vh::largestAlloc()));
        c.count("refused");
        c.distinct(vh::mix(n, sizeof(T) * 2 + decltype(packed)::value));
    };
    struct U64 { using type = zserio::UInt64; };
    struct U8 { using type = zserio::UInt8; };
    struct S { using type = zserio::String; };
    struct V { using type = zserio::VarUInt; };
    struct F { using type = zserio::Float64; };
    tryRead(U64(), std::false_type());
    tryRead(U8(), std::false_type());
    tryRead(S(), std::false_type());
    tryRead(V(), std::false_type());
    tryRead(F(), std::false_type());
    if (n > 1000) // packed arrays of constant elements may be long; keep to elements that need bits
    {
        memset(src.data.get(), 0, 8);
        tryRead(U64(), std::true_type());
        tryRead(U8(), std::true_type());
        tryRead(V(), std::true_type());
    }
}
VH_SECTION(huge_length, 200, 4000)
{
    hugeLength(c);
}
