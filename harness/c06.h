// C06: array round trip for every element type and array kind
#pragma once
#include "arr.h"
#include "zserio/ArrayView.h"
#include "zserio/SerializeUtil.h"

namespace arr
{

// copies bits to an exactly sized heap buffer
struct ExactBuffer
{
    explicit ExactBuffer(const Bits& b) :
            bytes(b.toBytes()),
            data(new uint8_t[bytes.empty() ? 1 : bytes.size()]),
            bits(b.size())
    {
        if (!bytes.empty())
        {
            memcpy(data.get(), bytes.data(), bytes.size());
        }
    }
    explicit ExactBuffer(size_t nbits) :
            bytes((nbits + 7) / 8, 0),
            data(new uint8_t[bytes.empty() ? 1 : bytes.size()]),
            bits(nbits)
    {
        memset(data.get(), 0, bytes.empty() ? 1 : bytes.size());
    }
    std::vector<uint8_t> bytes;
    std::unique_ptr<uint8_t[]> data;
    size_t bits;
};

inline Bits prefixBits(vh::Rng& r, size_t n)
{
    Bits b;
    for (size_t i = 0; i < n; ++i)
    {
        b.put(r.below(2), 1);
    }
    return b;
}

inline std::string diffText(const Bits& got, const Bits& want)
{
    size_t i = 0;
    while (i < got.size() && i < want.size() && got.v[i] == want.v[i])
    {
        ++i;
    }
    return vh::str("first difference at bit ", i, ", sizes ", got.size(), "/", want.size());
}

// view element and raw element hold the same value
template <typename B, typename E>
bool elemSame(const B&, const E& viewElem, const typename B::Elem& raw)
{
    using T = typename B::Elem;
    if constexpr (std::is_same_v<T, zserio::Bytes>)
    {
        return viewElem.size() == raw.size() && std::equal(viewElem.begin(), viewElem.end(), raw.begin());
    }
    else if constexpr (std::is_same_v<T, zserio::String>)
    {
        return viewElem == std::string_view(raw);
    }
    else if constexpr (std::is_same_v<T, zserio::BitBuffer>)
    {
        const zserio::BitBuffer& bb = viewElem;
        return bb.getBitSize() == raw.getBitSize() && bufBits(bb) == bufBits(raw);
    }
    else if constexpr (std::is_convertible_v<const E&, const T&>)
    {
        return M<T>::same(viewElem, raw);
    }
    else if constexpr (std::is_same_v<B, Plain<T>>)
    {
        return &viewElem.zserioData() == &raw;
    }
    else
    {
        return viewElem == raw && viewElem.numBits() == g_dynBits;
    }
}

template <typename B, typename = void>
struct HasNumBits : std::false_type
{};

template <typename F>
bool throwsRuntime(F&& f)
{
    try
    {
        f();
    }
    catch (const zserio::CppRuntimeException&)
    {
        return true;
    }
    return false;
}

template <typename B>
void accessBody(vh::Case& c, const B& bind, const zserio::Vector<typename B::Elem>& vals)
{
    const auto view = bind.view(vals);
    VH_EQ(c, view.size(), vals.size(), "size", "");
    VH_EQ(c, view.empty(), vals.empty(), "empty", "");
    const auto n = static_cast<std::ptrdiff_t>(vals.size());
    for (size_t i = 0; i < vals.size(); ++i)
    {
        c.check(elemSame(bind, view[i], vals[i]), "element-index", vh::str(B::name(), " [", i, "]"));
        c.check(elemSame(bind, view.at(i), vals[i]), "element-at", vh::str(B::name(), " at ", i));
        c.check(elemSame(bind, view.begin()[static_cast<std::ptrdiff_t>(i)], vals[i]), "iterator-index", vh::str(i));
        c.check(elemSame(bind, *(view.begin() + static_cast<std::ptrdiff_t>(i)), vals[i]), "iterator-plus", vh::str(i));
        c.check(elemSame(bind, *(static_cast<std::ptrdiff_t>(i) + view.begin()), vals[i]), "iterator-plus", vh::str(i));
        c.check(elemSame(bind, *(view.end() - (n - static_cast<std::ptrdiff_t>(i))), vals[i]), "iterator-minus", vh::str(i));
        auto it = view.begin();
        it += static_cast<std::ptrdiff_t>(i);
        c.check(elemSame(bind, *it, vals[i]), "iterator-add", vh::str(i));
        c.check(elemSame(bind, *it.operator->().operator->(), vals[i]), "iterator-arrow", vh::str(i));
        it -= static_cast<std::ptrdiff_t>(i);
        c.check(it == view.begin() && !(it != view.begin()), "iterator-sub", vh::str(i));
        c.check(((view.begin() + static_cast<std::ptrdiff_t>(i)) < view.end()) &&
                        !(view.end() < (view.begin() + static_cast<std::ptrdiff_t>(i))) &&
                        view.end() > (view.begin() + static_cast<std::ptrdiff_t>(i)) &&
                        view.end() >= (view.begin() + static_cast<std::ptrdiff_t>(i)) &&
                        (view.begin() + static_cast<std::ptrdiff_t>(i)) <= view.end(),
                "iterator-order", vh::str(i));
        c.check((view.end() - (view.begin() + static_cast<std::ptrdiff_t>(i))) == n - static_cast<std::ptrdiff_t>(i),
                "iterator-difference", vh::str(i));
    }
    size_t i = 0;
    for (auto it = view.cbegin(); it != view.cend(); it++)
    {
        c.check(i < vals.size() && elemSame(bind, *it, vals[i]), "iterator-forward", vh::str(i));
        ++i;
    }
    VH_EQ(c, i, vals.size(), "iterator-forward-count", "");
    i = 0;
    for (auto&& e : view)
    {
        c.check(i < vals.size() && elemSame(bind, e, vals[i]), "range-for", vh::str(i));
        ++i;
    }
    VH_EQ(c, i, vals.size(), "range-for-count", "");
    i = vals.size();
    for (auto it = view.end(); it != view.begin();)
    {
        --it;
        --i;
        c.check(elemSame(bind, *it, vals[i]), "iterator-backward", vh::str(i));
    }
    i = vals.size();
    for (auto it = view.rbegin(); it != view.rend(); ++it)
    {
        --i;
        c.check(elemSame(bind, *it, vals[i]), "iterator-reverse", vh::str(i));
    }
    VH_EQ(c, i, size_t(0), "iterator-reverse-count", "");
    if (!vals.empty())
    {
        c.check(elemSame(bind, view.front(), vals.front()), "front", "");
        c.check(elemSame(bind, view.back(), vals.back()), "back", "");
        auto it = view.end();
        it--;
        c.check(elemSame(bind, *it, vals.back()), "iterator-postdec", "");
    }
    else
    {
        c.check(throwsRuntime([&]() { (void)view.front(); }), "front-of-empty", "did not throw");
        c.check(throwsRuntime([&]() { (void)view.back(); }), "back-of-empty", "did not throw");
    }
    const size_t bad[] = {vals.size(), vals.size() + 1, ~size_t(0), size_t(1) << 63};
    for (size_t b : bad)
    {
        c.check(throwsRuntime([&]() { (void)view.at(b); }), "at-out-of-bounds", vh::str("index ", b, " of ", vals.size()));
    }
}

template <typename B, ArrayType A, bool packed>
void roundTrip(vh::Case& c, K k, B& bind, const zserio::Vector<typename B::Elem>& valsIn)
{
    using T = typename B::Elem;
    auto& r = c.rng;
    zserio::Vector<T> vals = valsIn;
    const size_t start = r.chance(60) ? r.below(9) : r.below(71);
    c.trace(vh::str(B::name(), " ", kindName(k), packed ? " packed" : "", " start ", start, " ", seqText(vals)));

    Bits want = prefixBits(r, start);
    const Bits prefix = want;
    std::vector<uint64_t> offsets;
    std::vector<Col> cols;
    encArray(want, k, vals, packed, &offsets, &cols);

    const auto view = bind.view(vals);
    // size
    const auto at = static_cast<zserio::BitSize>(start);
    zserio::BitSize size = 0;
    if constexpr (packed)
    {
        size = zserio::detail::bitSizeOfPacked<A>(view, at);
    }
    else
    {
        size = zserio::detail::bitSizeOf<A>(view, at);
    }
    VH_EQ(c, static_cast<size_t>(size), want.size() - start, "bit-size", B::name(), " ", kindName(k));
    // offsets
    std::vector<std::pair<size_t, uint64_t>> log;
    const OffsetLog setter{&log};
    zserio::BitSize osize = 0;
    if constexpr (packed)
    {
        osize = zserio::detail::initializeOffsetsPacked<A>(view, at, setter);
    }
    else
    {
        osize = zserio::detail::initializeOffsets<A>(view, at, setter);
    }
    VH_EQ(c, static_cast<size_t>(osize), want.size() - start, "offsets-size", B::name(), " ", kindName(k));
    VH_EQ(c, log.size(), offsets.size(), "offsets-count", kindName(k));
    for (size_t i = 0; i < log.size(); ++i)
    {
        c.check(log[i].first == i && log[i].second == offsets[i], "offset-position",
                vh::str("element ", i, " reported [", log[i].first, "] ", log[i].second, " expected ", offsets[i]));
    }
    // write to a buffer of exactly that size
    ExactBuffer buf(want.size());
    {
        zserio::BitStreamWriter w(buf.data.get(), want.size(), zserio::BitsTag());
        for (size_t i = 0; i < start; ++i)
        {
            w.writeBool(prefix.v[i] != 0);
        }
        if constexpr (packed)
        {
            zserio::detail::writePacked<A>(w, view);
        }
        else
        {
            zserio::detail::write<A>(w, view);
        }
        VH_EQ(c, static_cast<size_t>(w.getBitPosition()), want.size(), "write-position", "");
    }
    const Bits got = Bits::fromBytes(buf.data.get(), want.size());
    c.check(got == want, "encoding", vh::str(B::name(), " ", kindName(k), " ", diffText(got, want)));
    // read the reference bits
    const ExactBuffer src(want);
    for (int mode = 0; mode < 2; ++mode)
    {
        zserio::Vector<T> back;
        if (mode == 1)
        {
            auto tmp = bind; // keep the width
            M<T>::gen(r, back, r.below(6));
            (void)tmp;
        }
        const size_t prealloc = r.below(4) == 0 ? r.below(64) : (r.flip() ? 0 : size_t(1) << 20);
        zserio::BitStreamReader reader(src.data.get(), want.size(), zserio::BitsTag(),
                zserio::ArrayPreallocation{prealloc});
        reader.setBitPosition(static_cast<zserio::BitSize>(start));
        if constexpr (packed)
        {
            bind.template readPacked<A>(reader, back, vals.size());
        }
        else
        {
            bind.template read<A>(reader, back, vals.size());
        }
        VH_EQ(c, static_cast<size_t>(reader.getBitPosition()), want.size(), "read-position", B::name());
        c.check(sameSeq(back, vals), "round-trip",
                vh::str(B::name(), " ", kindName(k), " got ", seqText(back), " expected ", seqText(vals)));
    }
    c.count(packed ? "packed_arrays" : "arrays");
    c.count("elements", vals.size());
    if constexpr (packed && M<T>::packable)
    {
        for (const Col& col : cols)
        {
            c.count(col.packed ? "columns_packed" : "columns_raw");
            if (!col.v.empty())
            {
                c.check(col.emittedBits <= col.unpacked + 1, "packed-cost",
                        vh::str("column costs ", col.emittedBits, " bits, unpacked ", col.unpacked));
            }
            c.count(vh::str("max_bits_", col.v.empty() ? 0 : col.maxBits).c_str());
        }
    }
    if (vals.size() > 1)
    {
        vh::Pause p;
        c.distinct(vh::str(B::name(), kindName(k), packed, start) + seqText(vals));
    }
    if (c.wantSample() && vals.size() > 1)
    {
        c.sample(vh::str(B::name(), " ", kindName(k), " start ", start, " ", seqText(vals), " -> ", want.size(), " bits"));
    }
}

template <typename B>
void c06Body(vh::Case& c)
{
    using T = typename B::Elem;
    auto& r = c.rng;
    constexpr bool heavy = std::is_same_v<T, zserio::Bytes> || std::is_same_v<T, zserio::String> ||
            std::is_same_v<T, zserio::BitBuffer> || std::is_class_v<T>;
    const bool obj = heavy && M<T>::implicitBits == 0;
    B bind;
    zserio::Vector<T> vals;
    bind.gen(r, vals, randomLen(r, obj, true));
    if (vals.size() > 65535)
    {
        c.count("longer_than_16_bits");
    }
    static const K kinds[] = {K::NORMAL, K::ALIGNED, K::AUTO, K::ALIGNED_AUTO};
    for (K k : kinds)
    {
        withKind(k, [&](auto a) {
            roundTrip<B, decltype(a)::value, false>(c, k, bind, vals);
        });
        c.clearTrace();
    }
    accessBody(c, bind, vals);
    // declared length differs
    {
        const auto view = bind.view(vals);
        const size_t wrong[] = {vals.size() + 1, vals.empty() ? 5 : vals.size() - 1, vals.size() + (size_t(1) << 32),
                ~size_t(0)};
        const auto rejected = [&](auto a, size_t n) {
            try
            {
                zserio::detail::validate<decltype(a)::value>(view, "field", n);
            }
            catch (const zserio::ArrayLengthException&)
            {
                return true;
            }
            return false;
        };
        for (size_t n : wrong)
        {
            c.check(rejected(std::integral_constant<ArrayType, ArrayType::NORMAL>(), n), "wrong-length-accepted",
                    vh::str(vals.size(), " elements accepted as length ", n));
            c.check(rejected(std::integral_constant<ArrayType, ArrayType::ALIGNED>(), n), "wrong-length-accepted",
                    vh::str(vals.size(), " elements accepted as length ", n));
            c.count("wrong_length");
        }
        c.check(!rejected(std::integral_constant<ArrayType, ArrayType::NORMAL>(), vals.size()), "right-length-rejected", "");
        c.check(!rejected(std::integral_constant<ArrayType, ArrayType::ALIGNED>(), vals.size()), "right-length-rejected",
                "");
        c.check(!rejected(std::integral_constant<ArrayType, ArrayType::AUTO>(), 77777), "auto-length-rejected", "");
        c.check(!rejected(std::integral_constant<ArrayType, ArrayType::ALIGNED_AUTO>(), 77777), "auto-length-rejected", "");
    }
    // implicit length
    if constexpr (M<T>::implicitBits != 0)
    {
        const size_t start = r.below(20);
        Bits want = prefixBits(r, start);
        encArray(want, K::IMPLICIT, vals, false);
        const size_t end = want.size();
        const auto view = bind.view(vals);
        VH_EQ(c, static_cast<size_t>(zserio::detail::bitSizeOf<ArrayType::IMPLICIT>(view, static_cast<zserio::BitSize>(start))),
                end - start, "implicit-size", B::name());
        ExactBuffer buf(end);
        zserio::BitStreamWriter w(buf.data.get(), end, zserio::BitsTag());
        for (size_t i = 0; i < start; ++i)
        {
            w.writeBool(want.v[i] != 0);
        }
        zserio::detail::write<ArrayType::IMPLICIT>(w, view);
        const Bits got = Bits::fromBytes(buf.data.get(), end);
        c.check(got == want, "implicit-encoding", vh::str(B::name(), " ", diffText(got, want)));
        const size_t extra = r.below(M<T>::implicitBits);
        for (size_t i = 0; i < extra; ++i)
        {
            want.put(r.below(2), 1);
        }
        const ExactBuffer src(want);
        zserio::BitStreamReader reader(src.data.get(), want.size(), zserio::BitsTag());
        reader.setBitPosition(static_cast<zserio::BitSize>(start));
        zserio::Vector<T> back;
        bind.template read<ArrayType::IMPLICIT>(reader, back, 12345);
        VH_EQ(c, static_cast<size_t>(reader.getBitPosition()), end, "implicit-position", B::name());
        c.check(sameSeq(back, vals), "implicit-round-trip",
                vh::str(B::name(), " got ", seqText(back), " expected ", seqText(vals)));
        c.count("implicit");
    }
}

} // namespace arr
