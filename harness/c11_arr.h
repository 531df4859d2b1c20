// C11: arrays of every element type read from hostile bits
#pragma once
#include "c06.h"
#include "c11.h"

namespace arr
{

template <typename B, ArrayType A, bool packed>
void hostileArray(vh::Case& c, K k, B& bind, const Bits& bits, size_t start, size_t n, size_t prealloc)
{
    using T = typename B::Elem;
    const ExactBuffer src(bits);
    zserio::Vector<T> vals;
    size_t end = 0;
    vh::resetAllocStats();
    const auto get = [&](zserio::BitStreamReader& reader, zserio::Vector<T>& v, size_t len) {
        if constexpr (packed)
        {
            bind.template readPacked<A>(reader, v, len);
        }
        else
        {
            bind.template read<A>(reader, v, len);
        }
    };
    // packed elements of a constant sequence take no bits: what such an array needs is bounded by its length
    const uint64_t elems = bits.size() + (packed ? 3100 : 0);
    const uint64_t memLimit = std::max<uint64_t>(prealloc, 2 * sizeof(T) * (elems + 1)) + 4096;
    bool ok = false;
    try
    {
        zserio::BitStreamReader reader(src.data.get(), bits.size(), zserio::BitsTag(), zserio::ArrayPreallocation{prealloc});
        reader.setBitPosition(static_cast<zserio::BitSize>(start));
        get(reader, vals, n);
        end = reader.getBitPosition();
        ok = true;
    }
    catch (const zserio::CppRuntimeException&)
    {}
    catch (const std::exception& e)
    {
        c.fail("foreign-exception:array", vh::str(B::name(), " ", e.what()));
    }
    VH_CHECK(c, vh::largestAlloc() <= memLimit, "memory:array", B::name(), " allocated ", vh::largestAlloc(), " for ",
            bits.size(), " bits of data, preallocation limit ", prealloc);
    c.count(ok ? "accepted" : "rejected");
    if (!ok)
    {
        return;
    }
    VH_CHECK(c, end <= bits.size() && end >= start, "array-end", end);
    if (k == K::NORMAL || k == K::ALIGNED)
    {
        VH_EQ(c, vals.size(), n, "array-length", B::name());
    }
    const auto view = bind.view(vals);
    try
    {
        zserio::detail::validate<A>(view, "field", vals.size());
    }
    catch (const zserio::CppRuntimeException&)
    {
        c.count("validation_rejected");
        return;
    }
    Bits want = prefixBits(c.rng, start);
    encArray(want, k, vals, packed);
    const ExactBuffer again(want);
    zserio::Vector<T> back;
    zserio::BitStreamReader reader(again.data.get(), want.size(), zserio::BitsTag());
    reader.setBitPosition(static_cast<zserio::BitSize>(start));
    try
    {
        get(reader, back, vals.size());
    }
    catch (const zserio::CppRuntimeException& e)
    {
        c.fail("re-encoded-array-rejected", vh::str(B::name(), " ", kindName(k), " ", e.what(), " ", seqText(vals)));
    }
    VH_EQ(c, static_cast<size_t>(reader.getBitPosition()), want.size(), "re-encoded-array-end", B::name());
    c.check(sameSeq(back, vals), "re-encoded-array",
            vh::str(B::name(), " ", kindName(k), " got ", seqText(back), " expected ", seqText(vals)));
    ExactBuffer buf(want.size());
    zserio::BitStreamWriter w(buf.data.get(), want.size(), zserio::BitsTag());
    for (size_t i = 0; i < start; ++i)
    {
        w.writeBool(want.v[i] != 0);
    }
    if constexpr (packed)
    {
        zserio::detail::writePacked<A>(w, view);
    }
    else
    {
        zserio::detail::write<A>(w, view);
    }
    if constexpr (std::is_same_v<T, zserio::Float16>)
    {
        for (const auto& f : vals)
        {
            if (static_cast<float>(f) != static_cast<float>(f))
            {
                return; // payload of NaN is not specified by the reference
            }
        }
    }
    const Bits got = Bits::fromBytes(buf.data.get(), want.size());
    c.check(got == want, "re-encoded-bits", vh::str(B::name(), " ", kindName(k), " ", diffText(got, want)));
    c.count("reserialized");
}

template <typename B>
void c11Body(vh::Case& c)
{
    using T = typename B::Elem;
    auto& r = c.rng;
    if constexpr (std::is_same_v<T, objs::PObj> || std::is_same_v<T, objs::OObj>)
    {
        // PObj nests packed arrays, where elements of a constant sequence need no data at all: the length alone decides how
        // much is decoded, by design of the encoding. OObj is encoded by the reference with true offsets only.
        return;
    }
    static const K kinds[] = {K::NORMAL, K::ALIGNED, K::AUTO, K::ALIGNED_AUTO};
    constexpr bool obj = std::is_class_v<T> && M<T>::implicitBits == 0 && (M<T>::columns != 1);
    for (unsigned round = 0; round < 6; ++round)
    {
        B bind;
        const K k = kinds[r.below(4)];
        constexpr bool canPack = M<T>::packable || M<T>::implicitBits == 0;
        const bool packed = canPack && r.flip();
        const size_t start = r.flip() ? 0 : r.below(20);
        const bool autoKind = k == K::AUTO || k == K::ALIGNED_AUTO;
        zserio::Vector<T> vals;
        bind.gen(r, vals, randomLen(r, obj, false)); // also chooses the width of dynamic elements
        Bits b;
        size_t n = vals.size();
        const unsigned mode = static_cast<unsigned>(r.below(4));
        if (mode == 0)
        {
            b = prefixBits(r, start);
            n = r.below(obj ? 20 : 200);
            if (autoKind)
            {
                ref::putVar(b, ref::Var::SIZE, static_cast<i128>(n));
            }
            b.append(c11::randomBits(r, r.below(800)));
        }
        else
        {
            b = prefixBits(r, start);
            encArray(b, k, vals, packed);
            const size_t keep = start + (packed && autoKind ? ref::varBytes(ref::Var::SIZE, static_cast<i128>(n)) * 8 : 0);
            c11::mutate(r, b, keep);
            if (!packed && r.chance(30))
            {
                static const size_t lens[] = {0, 1, 1000, 100000, size_t(1) << 31, size_t(1) << 40, ~size_t(0)};
                n = r.flip() ? r.pick(lens) : n + r.below(4);
            }
            else if (r.chance(20))
            {
                n += r.below(4);
            }
        }
        const size_t prealloc = r.below(3) == 0 ? r.below(64) : (r.flip() ? r.below(5000) : size_t(128) * 1024);
        c.trace(vh::str(B::name(), " ", kindName(k), packed ? " packed" : "", " start ", start, " length ", n, " bits ", b.text(400)));
        c.distinct(vh::mix(vh::hashStr(std::string_view(reinterpret_cast<const char*>(b.v.data()), b.v.size())), n));
        withKind(k, [&](auto a) {
            if constexpr (canPack)
            {
                if (packed)
                {
                    hostileArray<B, decltype(a)::value, true>(c, k, bind, b, start, n, prealloc);
                }
            }
            if (!packed)
            {
                hostileArray<B, decltype(a)::value, false>(c, k, bind, b, start, n, prealloc);
            }
        });
        c.clearTrace();
    }
}

} // namespace arr
