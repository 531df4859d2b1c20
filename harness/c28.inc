// C28: every allocation of an operation fails once. Included with TOBJ_NS defined.
#include <sstream>

#include "zserio/DataView.h"
#include "zserio/DebugStringUtil.h"
#include "zserio/IService.h"
#include "zserio/IntrospectableView.h"
#include "zserio/JsonReader.h"
#include "zserio/JsonWriter.h"
#include "zserio/ReflectableData.h"
#include "zserio/ReflectableUtil.h"
#include "zserio/SerializeUtil.h"
#include "zserio/SqliteConnection.h"
#include "zserio/SqliteUtil.h"
#include "zserio/TypeInfoUtil.h"
#include "zserio/UniquePtr.h"
#include "zserio/ValidationSqliteUtil.h"
#include "zserio/Variant.h"
#include "zserio/Walker.h"
#include "zserio/ZserioTreeCreator.h"

namespace c28
{
namespace
{
namespace N = tobj::TOBJ_NS;
using A = ::test_object::TOBJ_NS::CreatorNested::allocator_type;
using K = life::Kit<A>;
using Str = zserio::BasicString<zserio::RebindAlloc<A, char>>;
using Handle = zserio::IBasicReflectableDataPtr<A>;
using ConstHandle = zserio::IBasicReflectableDataConstPtr<A>;
constexpr bool PROPAGATING = !std::is_same_v<A, std::pmr::polymorphic_allocator<uint8_t>>;

template <typename I>
void warm(const I& t, int depth)
{
    if (depth > 5)
    {
        return;
    }
    (void)t.getSchemaName();
    if (zserio::TypeInfoUtil::isCompound(t.getCppType()))
    {
        for (const auto& f : t.getFields())
        {
            warm(f.typeInfo, depth + 1);
        }
    }
}

template <typename H>
void readAll(const H& h, const A& a, size_t& n, int depth)
{
    if (!h || depth > 6)
    {
        return;
    }
    const auto& t = h->getTypeInfo();
    if (h->isArray())
    {
        for (size_t i = 0; i < h->size(); ++i)
        {
            readAll(h->at(i), a, n, depth + 1);
        }
        return;
    }
    n += h->getAnyValue(a).hasValue() ? 2 : 1;
    if (zserio::TypeInfoUtil::isCompound(t.getCppType()))
    {
        if (zserio::TypeInfoUtil::hasChoice(t.getCppType()))
        {
            const auto name = h->getChoice();
            if (!name.empty())
            {
                readAll(h->getField(name), a, n, depth + 1);
            }
            return;
        }
        for (const auto& f : t.getFields())
        {
            readAll(h->getField(f.schemaName), a, n, depth + 1);
        }
        return;
    }
    if (t.getCppType() != zserio::CppType::BYTES && t.getCppType() != zserio::CppType::BIT_BUFFER)
    {
        n += h->toString(a).size();
    }
}

// copies everything of one object into another one through their reflections
void copyFields(const ConstHandle& from, const Handle& to, const A& a, int depth)
{
    if (depth > 6)
    {
        return;
    }
    const auto& t = from->getTypeInfo();
    const auto one = [&](std::string_view name) {
        const auto f = from->getField(name);
        if (!f)
        {
            return;
        }
        if (f->isArray() || zserio::TypeInfoUtil::isCompound(f->getTypeInfo().getCppType()))
        {
            const auto made = to->createField(name);
            if (f->isArray())
            {
                for (size_t i = 0; i < f->size(); ++i)
                {
                    const auto e = f->at(i);
                    if (zserio::TypeInfoUtil::isCompound(e->getTypeInfo().getCppType()))
                    {
                        made->resize(i + 1);
                        copyFields(e, made->at(i), a, depth + 1);
                    }
                }
            }
            else
            {
                copyFields(f, made, a, depth + 1);
            }
        }
    };
    if (zserio::TypeInfoUtil::hasChoice(t.getCppType()))
    {
        const auto name = from->getChoice();
        if (!name.empty())
        {
            one(name);
        }
        return;
    }
    for (const auto& f : t.getFields())
    {
        one(f.schemaName);
    }
}

struct AsDefault
{
    std::pmr::memory_resource* old;
    explicit AsDefault(std::pmr::memory_resource& r) :
            old(std::pmr::set_default_resource(&r))
    {}
    ~AsDefault()
    {
        std::pmr::set_default_resource(old);
    }
};

// anything may be done with an object which lived through a failure
template <typename T>
void usable(vh::Case& c, const std::string& op, T& y, const T& x, const std::string& want, life::TrackRes& mem, std::pmr::memory_resource& def)
{
    const AsDefault d(def);
    const auto text = N::extract(y).text(100000);
    VH_CHECK(c, y == y && !(y < y), "invalid-after:" + op, text);
    volatile uint32_t h = static_cast<uint32_t>(std::hash<T>()(y));
    (void)h;
    {
        const T copy(y);
        VH_CHECK(c, copy == y, "invalid-after:" + op, text);
    }
    y = x;
    VH_EQ(c, N::extract(y).text(100000), want, "not-assignable-after:" + op, "");
    (void)mem;
}

template <typename T, typename G>
void failures(vh::Case& c, G&& gen)
{
    auto& r = c.rng;
    static const bool warmed = (warm(zserio::typeInfo<T, A>(), 0), true);
    (void)warmed;
    tobj::Gen g(r, tobj::Gen::UTF8_NONUL, c.thorough ? 6 : 3, 50);
    const tobj::Node n = gen(g);
    const tobj::Node n2 = gen(g);
    const std::string text = n.text(100000);
    c.trace(n.text(300));
    const auto bytes = tobj::encodeBytes(n);
    const size_t bits = [&]() {
        tobj::Bits b;
        tobj::encode(n, b);
        return b.size();
    }();
    life::Resources res;
    // the objects are in the failing resource or in the failing default resource
    const int id = r.chance(70) ? 0 : 2;
    life::TrackRes& mem = id == 0 ? res.r0 : res.def;
    const A alloc = K::make(res, id);
    mem.failAll = r.chance(30);
    c.count(mem.failAll ? "no_memory_at_all" : "single_failures");
    {
        std::optional<AsDefault> in;
        in.emplace(mem);
        T obj{alloc};
        N::build(n, obj);
        T second{alloc};
        N::build(n2, second);
        const T& cobj = obj;
        const zserio::BasicBitBuffer<A> buffer(zserio::Vector<uint8_t, A>(bytes.begin(), bytes.end(), alloc), bits, alloc);
        const Str json = [&]() { return zserio::toJsonString(cobj, alloc); }();
        const std::string jsonStd(json.data(), json.size());
        in.reset();
        const auto args = N::args(n, static_cast<T*>(nullptr));

        // f is called with an object which has other contents and returns whether the result is right
        const auto op = [&](const std::string& what, auto f) {
            uint64_t k = 1;
            for (;; k += k < 200 ? 1 : 1 + c.rng.below(20))
            {
                const size_t live = res.r0.live() + res.r1.live() + res.def.live();
                bool failed = false;
                bool right = true;
                {
                    std::optional<T> y;
                    {
                        const AsDefault d(mem);
                        y.emplace(second, alloc);
                    }
                    const uint64_t before = mem.failed;
                    mem.failIn = static_cast<int64_t>(k);
                    try
                    {
                        right = f(*y);
                    }
                    catch (const std::bad_alloc&)
                    {
                        failed = true;
                    }
                    catch (const std::exception& e)
                    {
                        mem.failIn = -1;
                        c.report("other-exception:" + what, vh::str("allocation ", k, ": ", e.what()));
                        failed = true;
                    }
                    mem.failIn = -1;
                    const bool hit = mem.failed != before;
                    if (hit && !failed)
                    {
                        c.report("swallowed:" + what, vh::str(K::name, " ", what, ": failure of allocation ", k, " was not reported, result ",
                                                              right ? "right" : "wrong"));
                    }
                    if (failed)
                    {
                        c.count("failures");
                        usable(c, what, *y, cobj, text, mem, mem);
                        VH_EQ(c, N::extract(cobj).text(100000), text, "source-changed:" + what, vh::str("allocation ", k));
                    }
                    failed = failed || hit;
                }
                if (!life::st().error.empty())
                {
                    c.fail("resource:" + what, life::st().error);
                }
                const size_t now = res.r0.live() + res.r1.live() + res.def.live();
                if (now != live)
                {
                    c.report("leak:" + what, vh::str(K::name, " ", what, ": failure of allocation ", k, " left ", now, " blocks instead of ", live));
                    return;
                }
                if (!failed)
                {
                    VH_CHECK(c, right, "wrong-result:" + what, vh::str("after ", k - 1, " failures"));
                    break;
                }
                if (k > 3000)
                {
                    break;
                }
            }
            c.count("operations");
            if (k > 1)
            {
                c.count("operations_with_memory");
            }
            c.distinct(vh::mix(vh::hashStr(what), vh::mix(n.hash(), k)));
        };

        op("copy construction", [&](T&) {
            const T x(cobj);
            return x == cobj;
        });
        op("copy construction with an allocator", [&](T&) {
            const T x(cobj, alloc);
            return x == cobj;
        });
        op("move construction with another allocator", [&](T& y) {
            const T x(std::move(y), K::make(res, 1));
            T z(x, alloc);
            const T w(std::move(z), K::make(res, 1));
            return w == second;
        });
        op("copy assignment", [&](T& y) {
            y = cobj;
            return y == cobj;
        });
        op("move assignment from another allocator", [&](T& y) {
            T x(cobj, K::make(res, 1));
            y = std::move(x);
            return y == cobj;
        });
        op("comparison", [&](T& y) {
            volatile bool b = y < cobj;
            volatile uint32_t h = static_cast<uint32_t>(std::hash<T>()(y));
            (void)b;
            (void)h;
            return (y == cobj) == (second == cobj);
        });
        std::apply(
                [&](const auto&... v) {
                    const zserio::View<T> view(cobj, v...);
                    op("serialization", [&](T&) {
                        const auto b = zserio::serialize(view, alloc);
                        return b == buffer;
                    });
                    op("serialization to bytes", [&](T&) {
                        const auto b = zserio::serializeToBytes(cobj, alloc, v...);
                        return std::equal(b.begin(), b.end(), bytes.begin(), bytes.end());
                    });
                    op("deserialization into an object", [&](T& y) {
                        (void)zserio::deserialize(buffer, y, v...);
                        mem.failIn = -1;
                        // not compared as objects, see the finding of C10 about empty choices
                        try
                        {
                            return zserio::serialize(zserio::View<T>(y, v...), alloc) == buffer;
                        }
                        catch (const zserio::CppRuntimeException&)
                        {
                            return true;
                        }
                    });
                    op("deserialization", [&](T&) {
                        const auto dv = zserio::deserialize<T>(buffer, alloc, v...);
                        return dv.zserioData() == cobj;
                    });
                    op("data view", [&](T&) {
                        const zserio::DataView<T> dv2(cobj, v...);
                        const zserio::DataView<T> dv(dv2);
                        return dv2.zserioData() == cobj && dv.zserioData() == cobj;
                    });
                    op("introspection", [&](T&) {
                        const auto h = zserio::introspectable(view, alloc);
                        size_t k = 0;
                        readAll(h, alloc, k, 0);
                        const auto b = h->serialize(alloc);
                        return b == buffer;
                    });
                    op("columns", [&](T& y) {
                        sqlite3* raw = nullptr;
                        sqlite3_open(":memory:", &raw);
                        zserio::SqliteConnection connection(raw, zserio::SqliteConnection::INTERNAL_CONNECTION);
                        using Statement = std::unique_ptr<sqlite3_stmt, zserio::SqliteFinalizer>;
                        connection.executeUpdate("CREATE TABLE aTable(aColumnWithAVeryLongName BLOB, anotherColumnWithAVeryLongName TEXT)");
                        {
                            const Statement s(connection.prepareStatement("INSERT INTO aTable VALUES(?1, ?2)"));
                            const auto size = zserio::detail::prepareColumn(view);
                            (void)zserio::detail::bindColumn(*s, 1, view, size, alloc);
                            (void)zserio::detail::bindColumn(*s, 2, std::string_view(json), 0, alloc);
                            sqlite3_step(s.get());
                        }
                        const Statement s(connection.prepareStatement("SELECT * FROM aTable"));
                        sqlite3_step(s.get());
                        zserio::BasicOptional<A, T> back(std::in_place, alloc, y);
                        zserio::BasicOptional<A, Str> backText(alloc);
                        zserio::detail::readColumn(back, *s, 0, v...);
                        zserio::detail::readColumn(backText, *s, 1);
                        typename zserio::ValidationSqliteUtil<A>::TableSchema schema(alloc);
                        zserio::ValidationSqliteUtil<A>::getTableSchema(connection, "", "aTable", schema, alloc);
                        return back == cobj && *backText == json && schema.size() == 2 &&
                                zserio::ValidationSqliteUtil<A>::isColumnInTable(connection, "", "aTable", "aColumnWithAVeryLongName", alloc);
                    });
                },
                args);
        op("reflection", [&](T& y) {
            size_t k = 0;
            readAll(zserio::reflectable(cobj, alloc), alloc, k, 0);
            readAll(zserio::reflectable(y, alloc), alloc, k, 0);
            return true;
        });
        op("creation of fields", [&](T& y) {
            copyFields(zserio::reflectable(cobj, alloc), zserio::reflectable(y, alloc), alloc, 0);
            return true;
        });
        op("setting of fields", [&](T& y) {
            const auto h = zserio::reflectable(y, alloc);
            const ConstHandle f = zserio::reflectable(cobj, alloc);
            if (!zserio::TypeInfoUtil::hasChoice(f->getTypeInfo().getCppType()))
            {
                for (const auto& info : f->getTypeInfo().getFields())
                {
                    const auto field = f->getField(info.schemaName);
                    if (field && info.typeInfo.getCppType() == zserio::CppType::STRING && !info.isArray)
                    {
                        h->setField(info.schemaName, zserio::BasicAny<A>(Str(field->getStringView(), alloc), alloc));
                        if (h->getField(info.schemaName)->getStringView() != field->getStringView())
                        {
                            return false;
                        }
                    }
                }
            }
            return true;
        });
        op("creation by type information", [&](T&) {
            const auto h = zserio::typeInfo<T, A>().createInstance(alloc);
            return h != nullptr;
        });
        op("JSON string", [&](T&) {
            const Str s = zserio::toJsonString(cobj, alloc);
            return s == json;
        });
        op("JSON to a stream", [&](T&) {
            std::ostringstream os;
            zserio::toJsonStream(cobj, os, 4, alloc);
            return os.str() == jsonStd;
        });
        op("JSON from a stream", [&](T&) {
            std::istringstream is(jsonStd);
            const T x = zserio::fromJsonStream<T>(is, alloc);
            return x == cobj;
        });
        {
            // one reader reads again after a failure
            op("JSON reading again", [&](T&) {
                std::istringstream is(jsonStd + "\n" + jsonStd);
                zserio::BasicJsonReader<A> reader(is, alloc);
                const int64_t left = mem.failIn;
                mem.failIn = -1;
                const auto first = reader.read(zserio::typeInfo<T, A>());
                mem.failIn = left;
                (void)first;
                return true;
            });
            op("JSON string parsed", [&](T&) {
                const T x = zserio::fromJsonString<T>(json, alloc);
                return x == cobj;
            });
        }
        op("any", [&](T& y) {
            zserio::BasicAny<A> any(alloc);
            any.set(cobj);
            zserio::BasicAny<A> any2(any, alloc);
            any2.template emplace<Str>(json);
            any2.set(y);
            any = any2;
            zserio::BasicAny<A> any3(std::move(any2), K::make(res, 1));
            return any.template get<T>() == second && any3.template get<T>() == second;
        });
        {
            // holders which lived through a failure
            zserio::BasicAny<A> any(alloc);
            zserio::BasicOptional<A, T> optional(alloc);
            enum class Tag : uint8_t
            {
                TEXT,
                OBJECT,
                NUMBER
            };
            using V = zserio::BasicVariant<A, Tag, Str, T, uint32_t>;
            V variant(alloc);
            zserio::Vector<T, zserio::RebindAlloc<A, T>> vec{zserio::RebindAlloc<A, T>(alloc)};
            const auto clear = [&]() {
                any.reset();
                optional.reset();
                variant.template emplace<Tag::NUMBER>(0U);
                vec.clear();
                vec.shrink_to_fit();
            };
            clear();
            op("kept any", [&](T&) {
                struct Clear
                {
                    decltype(clear)& f;
                    ~Clear()
                    {
                        f();
                    }
                } cl{clear};
                any.template emplace<Str>(json);
                try
                {
                    any.set(cobj);
                }
                catch (...)
                {
                    const int64_t left = mem.failIn;
                    mem.failIn = -1;
                    if (any.hasValue())
                    {
                        VH_CHECK(c, (any.template isType<Str>() && any.template get<Str>() == json) || any.template isType<T>(), "any-after-failure", "");
                    }
                    mem.failIn = left;
                    throw;
                }
                try
                {
                    any.template emplace<T>(second);
                }
                catch (...)
                {
                    VH_CHECK(c, !any.hasValue() || any.template isType<T>(), "any-after-failure", "");
                    throw;
                }
                return any.template get<T>() == second;
            });
            op("kept optional", [&](T&) {
                struct Clear
                {
                    decltype(clear)& f;
                    ~Clear()
                    {
                        f();
                    }
                } cl{clear};
                optional = second;
                try
                {
                    optional = cobj;
                    const zserio::BasicOptional<A, T> copy(optional);
                    optional.emplace(second);
                    optional = copy;
                    zserio::BasicOptional<A, T> other(std::in_place, K::make(res, 1), second);
                    optional = std::move(other);
                }
                catch (...)
                {
                    if (optional.has_value())
                    {
                        const AsDefault d(mem);
                        const int64_t left = mem.failIn;
                        mem.failIn = -1;
                        (void)N::extract(*optional);
                        mem.failIn = left;
                    }
                    throw;
                }
                return optional.has_value() && *optional == second;
            });
            op("kept variant", [&](T&) {
                struct Clear
                {
                    decltype(clear)& f;
                    ~Clear()
                    {
                        f();
                    }
                } cl{clear};
                try
                {
                    variant.template emplace<Tag::TEXT>(json);
                    variant.template emplace<Tag::OBJECT>(cobj);
                    const V copy(variant);
                    variant.template emplace<Tag::TEXT>(json);
                    V other(K::make(res, 1));
                    other.template emplace<Tag::OBJECT>(second);
                    variant = copy;
                    variant = std::move(other);
                }
                catch (...)
                {
                    const int64_t left = mem.failIn;
                    mem.failIn = -1;
                    if (!variant.valueless_by_exception())
                    {
                        variant.visit([&](const auto& v) {
                            using X = std::decay_t<decltype(v)>;
                            if constexpr (std::is_same_v<X, T>)
                            {
                                const AsDefault d(mem);
                                (void)N::extract(v);
                            }
                            else if constexpr (std::is_same_v<X, Str>)
                            {
                                VH_CHECK(c, v == json || v.empty(), "variant-after-failure", "");
                            }
                        });
                    }
                    mem.failIn = left;
                    throw;
                }
                return variant.index() == Tag::OBJECT && variant.template get<Tag::OBJECT>() == second;
            });
            op("kept vector", [&](T&) {
                struct Clear
                {
                    decltype(clear)& f;
                    ~Clear()
                    {
                        f();
                    }
                } cl{clear};
                vec.push_back(cobj);
                vec.push_back(second);
                vec.emplace_back();
                const auto size = vec.size();
                try
                {
                    vec.push_back(cobj);
                }
                catch (...)
                {
                    VH_CHECK(c, vec.size() == size, "vector-after-failure", "");
                    throw;
                }
                return vec.size() == 4 && vec[0] == cobj && vec[1] == second && vec[3] == cobj;
            });
            op("bit buffer", [&](T&) {
                using BB = zserio::BasicBitBuffer<A>;
                BB b(buffer, alloc);
                BB small(3, alloc);
                const auto use = [&](BB& x) {
                    volatile uint32_t h = x.hashCode();
                    (void)h;
                    VH_CHECK(c, x == x && x.getByteSize() == (x.getBitSize() + 7) / 8 && x.getData().size() == x.getBytes().size() &&
                                    x.getBytes().size() >= x.getByteSize(),
                            "bit-buffer-after-failure", vh::str(x.getBitSize(), " bits in ", x.getBytes().size(), " bytes"));
                };
                BB other(buffer.getData(), bits, K::make(res, 1));
                try
                {
                    small = b;
                    small = BB(1, K::make(res, 1));
                    small = b;
                    b = BB(1000 + bits, K::make(res, 1));
                    small = std::move(b);
                    other = small;
                    other = buffer;
                }
                catch (...)
                {
                    const AsDefault d(mem);
                    use(b);
                    use(small);
                    use(other);
                    throw;
                }
                return other == buffer;
            });
            if constexpr (std::tuple_size_v<std::decay_t<decltype(args)>> == 0)
            {
                op("service data", [&](T&) {
                    const zserio::BasicIntrospectableServiceData<T, A> d(cobj, alloc);
                    const auto data = d.getData();
                    const auto h = d.getIntrospectable();
                    const auto data2 = d.getData();
                    const zserio::BasicObjectServiceData<A> o(cobj, alloc);
                    return h != nullptr && data.size() == bytes.size() && data2.size() == bytes.size() && o.getData().size() == bytes.size();
                });
            }
            op("unique pointer", [&](T&) {
                const auto p = zserio::allocate_unique<T>(alloc, cobj);
                return *p == cobj;
            });
        }
        c.sample(vh::str(n.text(160), " in the ", id == 0 ? "given" : "default", " resource, ", mem.failed, " failures"));
    }
    VH_CHECK(c, life::st().error.empty(), "resource", life::st().error);
    VH_CHECK(c, res.r0.live() == 0 && res.r1.live() == 0 && res.def.live() == 0, "leak", "");
}

} // namespace
static void runFailures(vh::Case& c)
{
    N::withAnyType(c.idx, [&](auto* t, auto gen) { failures<std::remove_pointer_t<decltype(t)>>(c, gen); });
}
} // namespace c28
