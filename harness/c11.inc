// included with TOBJ_NS and C11_FN defined
namespace c11
{
namespace N = tobj::TOBJ_NS;
namespace O = ::test_object::TOBJ_NS;

template <typename T>
static std::tuple<> hargs(const Input&, T*)
{
    return {};
}
static std::tuple<zserio::UInt32> hargs(const Input& in, O::CreatorNested*)
{
    return {zserio::UInt32(static_cast<uint32_t>(in.param))};
}
static std::tuple<zserio::UInt8> hargs(const Input& in, O::WalkerChoice*)
{
    return {zserio::UInt8(static_cast<uint8_t>(in.param))};
}
static std::tuple<zserio::Int31, std::string_view> hargs(const Input& in, O::ReflectableNested*)
{
    return {zserio::Int31(in.param), std::string_view("p")};
}
static std::tuple<O::ReflectableEnum> hargs(const Input& in, O::ReflectableChoice*)
{
    return {static_cast<O::ReflectableEnum>(in.param)};
}
static std::tuple<zserio::UInt8> hargs(const Input& in, O::ReflectableUtilChoice*)
{
    return {zserio::UInt8(static_cast<uint8_t>(in.param))};
}
static std::tuple<zserio::Int32> hargs(const Input& in, O::DebugStringParamObject*)
{
    return {zserio::Int32(in.param)};
}

// a source of exactly the given bits, garbage in the unused bits of the last byte
struct Exact
{
    Exact(vh::Rng& r, const Bits& b) :
            e(b)
    {
        if (b.size() % 8 != 0)
        {
            e.data[e.bytes.size() - 1] = static_cast<uint8_t>(
                    e.data[e.bytes.size() - 1] | (r.next() & ((1U << (8 - b.size() % 8)) - 1)));
        }
    }
    arr::ExactBuffer e;
};

template <typename T>
static void body(vh::Case& c, const Input& in, const Node* want, size_t end)
{
    using A = typename T::allocator_type;
    const auto targs = hargs(in, static_cast<T*>(nullptr));
    const Exact src(c.rng, in.bits);
    const size_t nbits = in.bits.size();
    const zserio::ArrayPreallocation limit(in.prealloc);
    const uint64_t memLimit = std::max<uint64_t>(in.prealloc, 2 * 256 * (nbits / 8 + 1)) + 4096;
    std::apply(
            [&](const auto&... a) {
                const auto verdict = [&](const char* entry, const Node* w, auto&& f, uint64_t streamBuffer = 0) {
                    vh::resetAllocStats();
                    bool ok = false;
                    std::string what;
                    try
                    {
                        f();
                        ok = true;
                    }
                    catch (const zserio::CppRuntimeException& e)
                    {
                        what = e.what();
                    }
                    catch (const std::exception& e)
                    {
                        c.fail(std::string("foreign-exception:") + entry, e.what());
                    }
                    const uint64_t largest = vh::largestAlloc();
                    VH_CHECK(c, largest <= std::max(memLimit, streamBuffer), std::string("memory:") + entry, "allocated ", largest, " for ", nbits / 8,
                            " bytes of data, preallocation limit ", in.prealloc);
                    VH_CHECK(c, ok == (w != nullptr), std::string(ok ? "accepted:" : "rejected:") + entry,
                            ok ? "the encoding is invalid" : what);
                };
                const auto same = [&](const char* entry, const T& data) {
                    if (want != nullptr)
                    {
                        const Node got = N::extract(data);
                        c.check(got == *want, (std::string("object:") + entry).c_str(), tobj::diff(got, *want));
                    }
                };
                // low level read at a bit position
                {
                    T data{A{}};
                    size_t got = 0;
                    verdict("read", want, [&]() {
                        zserio::BitStreamReader r(src.e.data.get(), nbits, zserio::BitsTag(), limit);
                        r.setBitPosition(static_cast<zserio::BitSize>(in.start));
                        (void)zserio::detail::read(r, data, a...);
                        got = r.getBitPosition();
                    });
                    same("read", data);
                    if (want != nullptr)
                    {
                        VH_EQ(c, got, end, "end-position", "");
                        // whatever was accepted serialises again to an equivalent encoding or is invalid
                        const zserio::View<T> view(data, a...);
                        try
                        {
                            const auto bb = zserio::serialize(view, A{});
                            Bits enc;
                            tobj::encode(*want, enc);
                            VH_EQ(c, size_t(bb.getBitSize()), enc.size(), "re-serialized-size", "");
                            const auto bytes = enc.toBytes();
                            VH_CHECK(c, std::equal(bytes.begin(), bytes.end(), bb.getBuffer()), "re-serialized",
                                    vh::hex(bb.getBuffer(), bb.getByteSize()), " expected ",
                                    vh::hex(bytes.data(), bytes.size()));
                            const zserio::DataView<T> again = zserio::deserialize<T>(bb, A{}, a...);
                            c.check(again == view, "re-read", "");
                            c.count("reserialized");
                        }
                        catch (const zserio::CppRuntimeException& e)
                        {
                            c.fail("accepted-but-not-serializable", e.what());
                        }
                    }
                    else
                    {
                        // a partly filled object can be inspected, copied and reused
                        const T copy(data);
                        c.check(copy == data || data != data, "partial-copy", "");
                        data = T{A{}};
                    }
                }
                if (in.start != 0)
                {
                    return;
                }
                {
                    T data{A{}};
                    verdict("deserialize", want, [&]() {
                        const zserio::BasicBitBuffer<A> bb(
                                zserio::Span<const uint8_t>(src.e.data.get(), src.e.bytes.size()), nbits, A{});
                        (void)zserio::deserialize(bb, limit, data, a...);
                    });
                    same("deserialize", data);
                }
                if (nbits % 8 == 0)
                {
                    T data{A{}};
                    const zserio::Span<const uint8_t> span(src.e.data.get(), nbits / 8);
                    verdict("deserializeFromBytes", want,
                            [&]() { (void)zserio::deserializeFromBytes(span, limit, data, a...); });
                    same("deserializeFromBytes", data);
                    verdict("deserializeFromBytes<T>", want, [&]() {
                        const zserio::DataView<T> v = zserio::deserializeFromBytes<T>(span, limit, A{}, a...);
                        same("deserializeFromBytes<T>", v.zserioData());
                    });
                    if (c.idx % 8 == 0)
                    {
                        const std::string f = vh::scratchDir() + "/c11.bin";
                        {
                            std::ofstream out(f, std::ios::binary | std::ios::trunc);
                            out.write(reinterpret_cast<const char*>(src.e.data.get()), static_cast<std::streamsize>(nbits / 8));
                        }
                        T fromFile{A{}};
                        verdict("deserializeFromFile", want,
                                [&]() { (void)zserio::deserializeFromFile(f, limit, fromFile, a...); }, 16384);
                        same("deserializeFromFile", fromFile);
                        verdict("deserializeFromFile<T>", want, [&]() {
                            const zserio::DataView<T> v = zserio::deserializeFromFile<T>(f, limit, a...);
                            same("deserializeFromFile<T>", v.zserioData());
                        }, 16384);
                        (void)std::remove(f.c_str());
                        c.count("files");
                    }
                }
                else
                {
                    verdict("deserialize<T>", want, [&]() {
                        const zserio::BasicBitBuffer<A> bb(
                                zserio::Span<const uint8_t>(src.e.data.get(), src.e.bytes.size()), nbits, A{});
                        const zserio::DataView<T> v = zserio::deserialize<T>(bb, limit, A{}, a...);
                        same("deserialize<T>", v.zserioData());
                    });
                }
            },
            targs);
}

void C11_FN(run)(vh::Case& c, uint64_t type, const Input& in, const Node* want, size_t end)
{
    N::withAnyType(type, [&](auto* t, auto) { body<std::remove_pointer_t<decltype(t)>>(c, in, want, end); });
}

} // namespace c11
