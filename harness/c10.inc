// included with TOBJ_NS and C10_RUN defined
namespace c10
{
namespace N = tobj::TOBJ_NS;

template <typename T, typename V>
static void checkView(vh::Case& c, const V& view, const T& obj, const tobj::Node& n, const zserio::View<T>& expected,
        const char* entry)
{
    const tobj::Node got = N::extract(view.zserioData());
    c.check(got == n, (std::string("object:") + entry).c_str(), tobj::diff(got, n));
    c.check(view.zserioData() == obj && !(view.zserioData() != obj), (std::string("equal:") + entry).c_str(), n.text());
    c.check(view == expected && !(view != expected), (std::string("view-equal:") + entry).c_str(), n.text());
    c.check(std::hash<T>()(view.zserioData()) == std::hash<T>()(obj), (std::string("hash:") + entry).c_str(), n.text());
    c.count("deserializations");
}

template <typename T>
static void body(vh::Case& c, const tobj::Node& n, const Bytes& want, size_t bits)
{
    using A = typename T::allocator_type;
    const A alloc{};
    T obj{alloc};
    N::build(n, obj);
    const auto targs = N::args(n, static_cast<T*>(nullptr));
    std::apply(
            [&](const auto&... a) {
                const zserio::View<T> view(obj, a...);
                const unsigned prealloc = c.rng.flip() ? static_cast<unsigned>(c.rng.below(4)) : 100000U;
                const zserio::ArrayPreallocation limit(prealloc);
                // serialisation: every entry point gives the same bytes
                checkBuffer(c, zserio::serialize(view), want, bits, "serialize(view)");
                checkBuffer(c, zserio::serialize(view, alloc), want, bits, "serialize(view,alloc)");
                checkBuffer(c, zserio::serialize(obj, a...), want, bits, "serialize(data)");
                checkBuffer(c, zserio::serialize(obj, alloc, a...), want, bits, "serialize(data,alloc)");
                checkBytes(c, zserio::serializeToBytes(view), want, "serializeToBytes(view)");
                checkBytes(c, zserio::serializeToBytes(view, alloc), want, "serializeToBytes(view,alloc)");
                checkBytes(c, zserio::serializeToBytes(obj, a...), want, "serializeToBytes(data)");
                checkBytes(c, zserio::serializeToBytes(obj, alloc, a...), want, "serializeToBytes(data,alloc)");
                {
                    const zserio::DataView<T> dv(obj, a...);
                    checkBuffer(c, zserio::serialize(dv), want, bits, "serialize(dataView)");
                    checkBuffer(c, zserio::serialize(dv, alloc), want, bits, "serialize(dataView,alloc)");
                    checkBytes(c, zserio::serializeToBytes(dv), want, "serializeToBytes(dataView)");
                    checkBytes(c, zserio::serializeToBytes(dv, alloc), want, "serializeToBytes(dataView,alloc)");
                    checkView(c, dv, obj, n, view, "DataView(const T&)");
                    T tmp(obj);
                    const zserio::DataView<T> dv2(std::move(tmp), a...);
                    checkView(c, dv2, obj, n, view, "DataView(T&&)");
                }
                // data views own what they show
                {
                    auto first = std::make_unique<zserio::DataView<T>>(obj, a...);
                    auto copy = std::make_unique<zserio::DataView<T>>(*first);
                    auto moved = std::make_unique<zserio::DataView<T>>(std::move(*first));
                    first.reset();
                    checkView(c, *copy, obj, n, view, "DataView copy");
                    checkView(c, *moved, obj, n, view, "DataView move");
                    checkBuffer(c, zserio::serialize(*copy), want, bits, "serialize(dataView copy)");
                    copy.reset();
                    checkBuffer(c, zserio::serialize(*moved), want, bits, "serialize(dataView moved)");
                }
                // reading: bytes, then the source is destroyed
                {
                    Source s(want);
                    T data{alloc};
                    const auto v = zserio::deserializeFromBytes(s.span(), data, a...);
                    s.destroy();
                    checkView(c, v, obj, n, view, "deserializeFromBytes(data)");
                    VH_CHECK(c, &v.zserioData() == &data, "view-of-other-data", "");
                }
                {
                    Source s(want);
                    T data{alloc};
                    const auto v = zserio::deserializeFromBytes(s.span(), limit, data, a...);
                    s.destroy();
                    checkView(c, v, obj, n, view, "deserializeFromBytes(limit,data)");
                }
                {
                    Source s(want);
                    const zserio::DataView<T> v = zserio::deserializeFromBytes<T>(s.span(), a...);
                    s.destroy();
                    checkView(c, v, obj, n, view, "deserializeFromBytes<T>");
                    checkBytes(c, zserio::serializeToBytes(v), want, "re-serializeToBytes");
                }
                {
                    Source s(want);
                    const zserio::DataView<T> v = zserio::deserializeFromBytes<T>(s.span(), limit, alloc, a...);
                    s.destroy();
                    checkView(c, v, obj, n, view, "deserializeFromBytes<T>(limit,alloc)");
                }
                {
                    Source s(want);
                    const zserio::DataView<T> v = zserio::deserializeFromBytes<T>(s.span(), alloc, a...);
                    s.destroy();
                    checkView(c, v, obj, n, view, "deserializeFromBytes<T>(alloc)");
                }
                // bit buffers with garbage in the unused bits
                Bytes dirty = want;
                if (bits % 8 != 0)
                {
                    dirty.back() = static_cast<uint8_t>(dirty.back() | (c.rng.next() & ((1U << (8 - bits % 8)) - 1)));
                }
                const zserio::BasicBitBuffer<A> proto(zserio::Span<const uint8_t>(dirty.data(), dirty.size()), bits, alloc);
                {
                    auto b = std::make_unique<zserio::BasicBitBuffer<A>>(proto);
                    T data{alloc};
                    const auto v = zserio::deserialize(*b, data, a...);
                    b.reset();
                    checkView(c, v, obj, n, view, "deserialize(data)");
                    auto b2 = std::make_unique<zserio::BasicBitBuffer<A>>(proto);
                    T data2{alloc};
                    const auto v2 = zserio::deserialize(*b2, limit, data2, a...);
                    b2.reset();
                    checkView(c, v2, obj, n, view, "deserialize(limit,data)");
                    c.check(data == data2, "two-reads-differ", "");
                }
                {
                    auto b = std::make_unique<zserio::BasicBitBuffer<A>>(proto);
                    const zserio::DataView<T> v = zserio::deserialize<T>(*b, a...);
                    const zserio::DataView<T> v2 = zserio::deserialize<T>(*b, alloc, a...);
                    const zserio::DataView<T> v3 = zserio::deserialize<T>(*b, limit, a...);
                    const zserio::DataView<T> v4 = zserio::deserialize<T>(*b, limit, alloc, a...);
                    b.reset();
                    checkView(c, v, obj, n, view, "deserialize<T>");
                    checkView(c, v2, obj, n, view, "deserialize<T>(alloc)");
                    checkView(c, v3, obj, n, view, "deserialize<T>(limit)");
                    checkView(c, v4, obj, n, view, "deserialize<T>(limit,alloc)");
                    checkBuffer(c, zserio::serialize(v), want, bits, "re-serialize");
                }
                // at an odd stream position, followed by other bits
                {
                    const size_t pos = c.rng.below(20);
                    ref::Bits b;
                    for (size_t i = 0; i < pos; ++i)
                    {
                        b.put(c.rng.below(2), 1);
                    }
                    ref::Bits e;
                    tobj::encode(n, e);
                    b.append(e);
                    b.put(0x5A, 8);
                    const Bytes raw = b.toBytes();
                    zserio::BitStreamReader r(raw.data(), b.size(), zserio::BitsTag());
                    r.setBitPosition(static_cast<zserio::BitSize>(pos));
                    T data{alloc};
                    (void)zserio::detail::read(r, data, a...);
                    VH_EQ(c, static_cast<size_t>(r.getBitPosition()), pos + bits, "read-end-position", "");
                    const tobj::Node got = N::extract(data);
                    c.check(got == n, "object:unaligned", tobj::diff(got, n));
                    VH_EQ(c, r.readUnsignedBits32(8), 0x5AU, "bits-after-object", "");
                }
                // files
                if (c.idx % 4 == 0)
                {
                    const std::string dir = vh::scratchDir();
                    const std::string f1 = dir + "/a.blob";
                    const std::string f2 = dir + "/b.blob";
                    const std::string f3 = dir + "/c.blob";
                    zserio::serializeToFile(view, f1);
                    zserio::serializeToFile(obj, f2, a...);
                    {
                        const zserio::DataView<T> dv(obj, a...);
                        zserio::serializeToFile(dv, f3);
                    }
                    for (const std::string& f : {f1, f2, f3})
                    {
                        FILE* fp = fopen(f.c_str(), "rb");
                        Bytes got(want.size() + 16);
                        const size_t k = fp != nullptr ? fread(got.data(), 1, got.size(), fp) : 0;
                        if (fp != nullptr)
                        {
                            fclose(fp);
                        }
                        got.resize(k);
                        c.check(got == want, "file-content", vh::str(f, " ", k, " of ", want.size()));
                        c.count("files");
                    }
                    T data{alloc};
                    const auto v = zserio::deserializeFromFile(f1, data, a...);
                    T data2{alloc};
                    const auto v2 = zserio::deserializeFromFile(f2, limit, data2, a...);
                    const zserio::DataView<T> v3 = zserio::deserializeFromFile<T>(f3, a...);
                    const zserio::DataView<T> v4 = zserio::deserializeFromFile<T>(f1, limit, a...);
                    unlink(f1.c_str());
                    unlink(f2.c_str());
                    unlink(f3.c_str());
                    checkView(c, v, obj, n, view, "deserializeFromFile(data)");
                    checkView(c, v2, obj, n, view, "deserializeFromFile(limit,data)");
                    checkView(c, v3, obj, n, view, "deserializeFromFile<T>");
                    checkView(c, v4, obj, n, view, "deserializeFromFile<T>(limit)");
                }
                // the source object was not changed by any of it
                const tobj::Node after = N::extract(obj);
                c.check(after == n, "source-changed", tobj::diff(after, n));
            },
            targs);
}

void C10_FN(run)(vh::Case& c, uint64_t type, const tobj::Node& n, const Bytes& want, size_t wantBits)
{
    N::withAnyType(type, [&](auto* t, auto) { body<std::remove_pointer_t<decltype(t)>>(c, n, want, wantBits); });
}

#ifdef C10_REUSE
void C10_FN(reuse)(vh::Case& c, uint64_t type, const tobj::Node& before, const tobj::Node& n)
{
    N::withAnyType(type, [&](auto* t, auto) {
        using T = std::remove_pointer_t<decltype(t)>;
        T obj{};
        N::build(before, obj);
        T fresh{};
        N::build(n, fresh);
        const auto targs = N::args(n, static_cast<T*>(nullptr));
        std::apply(
                [&](const auto&... a) {
                    const Bytes raw = tobj::encodeBytes(n);
                    const zserio::View<T> want(fresh, a...);
                    const auto v = zserio::deserializeFromBytes(
                            zserio::Span<const uint8_t>(raw.data(), raw.size()), obj, a...);
                    checkView(c, v, fresh, n, want, "reused-object");
                    checkBytes(c, zserio::serializeToBytes(v), raw, "reused-object");
                },
                targs);
    });
}
#endif

} // namespace c10
