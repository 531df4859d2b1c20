// Round trip of generated objects through every entry point for one allocator: define TOBJ_NS before including.
#pragma once
#include <memory>
#include <tuple>

#include "tobj.h"
#include "zserio/DataView.h"
#include "zserio/SerializeUtil.h"

namespace c10
{

using Bytes = std::vector<uint8_t>;

template <typename V>
Bytes toBytes(const V& v)
{
    return Bytes(v.begin(), v.end());
}
template <typename B>
Bytes bufBytes(const B& b)
{
    return Bytes(b.getBuffer(), b.getBuffer() + b.getByteSize());
}

// one case of the allocator's types; all results are compared with the same reference bytes
void run_std(vh::Case& c, uint64_t type, const tobj::Node& n, const Bytes& want, size_t wantBits);
void run_pmr(vh::Case& c, uint64_t type, const tobj::Node& n, const Bytes& want, size_t wantBits);
void run_ppmr(vh::Case& c, uint64_t type, const tobj::Node& n, const Bytes& want, size_t wantBits);
void reuse_std(vh::Case& c, uint64_t type, const tobj::Node& a, const tobj::Node& n);
void reuse_ppmr(vh::Case& c, uint64_t type, const tobj::Node& a, const tobj::Node& n);

template <typename B>
void checkBuffer(vh::Case& c, const B& b, const Bytes& want, size_t wantBits, const char* entry)
{
    c.eval();
    if (b.getBitSize() != wantBits || bufBytes(b) != want)
    {
        c.fail(std::string("bytes:") + entry,
                vh::str(b.getBitSize(), " bits ", vh::hex(b.getBuffer(), b.getByteSize()), " expected ", wantBits, " bits ",
                        vh::hex(want.data(), want.size())));
    }
    c.count("serializations");
}
template <typename V>
void checkBytes(vh::Case& c, const V& b, const Bytes& want, const char* entry)
{
    c.eval();
    if (toBytes(b) != want)
    {
        c.fail(std::string("bytes:") + entry,
                vh::str(vh::hex(b.data(), b.size()), " expected ", vh::hex(want.data(), want.size())));
    }
    c.count("serializations");
}

// a buffer which is destroyed (and scribbled over) before the object read from it is inspected
struct Source
{
    explicit Source(const Bytes& b) :
            size(b.size()),
            data(new uint8_t[b.size()])
    {
        std::copy(b.begin(), b.end(), data.get());
    }
    void destroy()
    {
        std::fill(data.get(), data.get() + size, uint8_t(0xA5));
        data.reset();
    }
    zserio::Span<const uint8_t> span() const
    {
        return zserio::Span<const uint8_t>(data.get(), size);
    }
    size_t size;
    std::unique_ptr<uint8_t[]> data;
};

} // namespace c10
