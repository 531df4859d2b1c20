// C05: predicted bit size and offsets equal what is written
#pragma once
#include "c06.h"
#include "zserio/SerializeUtil.h"

namespace arr
{

// writes with the measuring writer (no buffer) and with an exactly sized buffer; both must use exactly `size` bits
template <typename F>
void checkWritten(vh::Case& c, size_t start, size_t size, const std::string& what, F&& write)
{
    {
        zserio::BitStreamWriter w(nullptr, 0);
        w.setBitPosition(static_cast<zserio::BitSize>(start));
        write(w);
        VH_EQ(c, static_cast<size_t>(w.getBitPosition()) - start, size, "measured-size", what, " at ", start);
    }
    const size_t total = start + size;
    ExactBuffer buf(total);
    zserio::BitStreamWriter w(buf.data.get(), total, zserio::BitsTag());
    w.setBitPosition(static_cast<zserio::BitSize>(start));
    try
    {
        write(w);
    }
    catch (const zserio::CppRuntimeException& e)
    {
        c.fail("predicted-too-small", vh::str(what, " at ", start, " predicted ", size, ": ", e.what()));
    }
    VH_EQ(c, static_cast<size_t>(w.getBitPosition()) - start, size, "written-size", what, " at ", start);
}

template <typename B>
void c05Body(vh::Case& c)
{
    using T = typename B::Elem;
    auto& r = c.rng;
    constexpr bool obj = std::is_class_v<T> && M<T>::implicitBits == 0;
    B bind;
    zserio::Vector<T> vals;
    bind.gen(r, vals, randomLen(r, obj, true));
    if (vals.size() > 65535)
    {
        c.count("longer_than_16_bits");
    }
    const size_t start = r.chance(50) ? r.below(17) : r.below(130);
    const auto at = static_cast<zserio::BitSize>(start);
    c.trace(vh::str(B::name(), " start ", start, " ", seqText(vals)));
    const auto view = bind.view(vals);
    // single elements at every offset of a byte and at the start position
    for (size_t i = 0; i < vals.size() && i < 12; ++i)
    {
        for (size_t pos = 0; pos < 9; ++pos)
        {
            const size_t p = pos == 8 ? start : pos;
            if constexpr (!std::is_enum_v<T> && !zserio::is_bitmask_v<T> && !std::is_same_v<T, objs::OObj>)
            {
                Bits want = prefixBits(r, p);
                M<T>::enc(want, vals[i]);
                const size_t off = zserio::detail::initializeOffsets(view[i], static_cast<zserio::BitSize>(p));
                VH_EQ(c, off, want.size() - p, "element-offsets", B::name(), " at ", p);
            }
            const size_t size = zserio::detail::bitSizeOf(view[i], static_cast<zserio::BitSize>(p));
            checkWritten(c, p, size, B::name(), [&](zserio::BitStreamWriter& w) {
                zserio::detail::write(w, view[i]);
            });
            if constexpr (!std::is_same_v<T, objs::OObj>)
            {
                Bits want = prefixBits(r, p);
                M<T>::enc(want, vals[i]);
                VH_EQ(c, size, want.size() - p, "element-size", B::name(), " at ", p, " ", M<T>::text(vals[i]));
            }
        }
        if constexpr (!M<T>::packable && std::is_same_v<zserio::detail::packing_context_type_t<T>, zserio::detail::DeltaContext> && !std::is_same_v<T, objs::OObj>)
        {
            // an element which is never packed is stored plainly when its owner is packed
            zserio::detail::DeltaContext ctx;
            zserio::detail::initContext(ctx, view[i]);
            const Bits pre = prefixBits(r, start);
            Bits want = pre;
            M<T>::enc(want, vals[i]);
            const size_t size = zserio::detail::bitSizeOf(ctx, view[i], at);
            VH_EQ(c, size, want.size() - start, "unpackable-size", B::name(), " at ", start);
            ExactBuffer buf(start + size);
            zserio::BitStreamWriter w(buf.data.get(), start + size, zserio::BitsTag());
            w.setBitPosition(at);
            zserio::detail::write(ctx, w, view[i]);
            VH_EQ(c, static_cast<size_t>(w.getBitPosition()), want.size(), "unpackable-written", B::name());
            if constexpr (!std::is_class_v<T> || zserio::is_numeric_wrapper_v<T>)
            {
                zserio::BitStreamReader rd(buf.data.get(), start + size, zserio::BitsTag());
                rd.setBitPosition(at);
                T back{};
                zserio::detail::read(ctx, rd, back);
                Bits again = pre;
                M<T>::enc(again, back);
                VH_CHECK(c, again.v == want.v, "unpackable-value", B::name(), " ", M<T>::text(vals[i]), " read as ", M<T>::text(back));
            }
            c.count("unpackable_elements");
        }
        c.count("elements");
    }
    const auto offsetsEqual = [&](K k, bool packed, const std::vector<std::pair<size_t, uint64_t>>& log) {
        Bits want = prefixBits(r, start);
        std::vector<uint64_t> offsets;
        encArray(want, k, vals, packed, &offsets);
        VH_EQ(c, log.size(), offsets.size(), "offsets-count", B::name(), " ", kindName(k), packed ? " packed" : "");
        for (size_t i = 0; i < log.size() && i < offsets.size(); ++i)
        {
            if (log[i].first != i || log[i].second != offsets[i])
            {
                c.fail("offset", vh::str(B::name(), " ", kindName(k), packed ? " packed" : "", " from ", start, " element ", i, ": offset of ", log[i].first, " is ",
                        log[i].second, " expected ", offsets[i]));
                break;
            }
        }
        c.count("offsets", log.size());
    };
    K kind = K::NORMAL;
    const auto kindBody = [&](auto a) {
        constexpr ArrayType A = decltype(a)::value;
        const size_t size = zserio::detail::bitSizeOf<A>(view, at);
        checkWritten(c, start, size, B::name() + " array", [&](zserio::BitStreamWriter& w) {
            zserio::detail::write<A>(w, view);
        });
        std::vector<std::pair<size_t, uint64_t>> log;
        VH_EQ(c, static_cast<size_t>(zserio::detail::initializeOffsets<A>(view, at, OffsetLog{&log})), size, "array-offsets-end", B::name());
        offsetsEqual(kind, false, log);
        c.count("arrays");
        if constexpr (M<T>::implicitBits != 16 * 1000 && M<T>::packable)
        {
            const size_t psize = zserio::detail::bitSizeOfPacked<A>(view, at);
            checkWritten(c, start, psize, B::name() + " packed array", [&](zserio::BitStreamWriter& w) {
                zserio::detail::writePacked<A>(w, view);
            });
            log.clear();
            VH_EQ(c, static_cast<size_t>(zserio::detail::initializeOffsetsPacked<A>(view, at, OffsetLog{&log})), psize, "packed-offsets-end", B::name());
            offsetsEqual(kind, true, log);
            c.count("packed_arrays");
        }
    };
    static const K kinds[] = {K::NORMAL, K::ALIGNED, K::AUTO, K::ALIGNED_AUTO};
    for (K k : kinds)
    {
        kind = k;
        withKind(k, kindBody);
    }
    if (vals.size() > 1)
    {
        vh::Pause p;
        c.distinct(vh::str(B::name(), start) + seqText(vals));
    }
    if (c.wantSample() && vals.size() > 1)
    {
        c.sample(vh::str(B::name(), " at ", start, " ", seqText(vals)));
    }
}

} // namespace arr
