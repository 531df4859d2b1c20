// C27: where memory comes from. Included with TOBJ_NS defined.
#include <sstream>
#include <streambuf>

#include "zserio/DataView.h"
#include "zserio/DebugStringUtil.h"
#include "zserio/IService.h"
#include "zserio/IntrospectableView.h"
#include "zserio/JsonReader.h"
#include "zserio/JsonWriter.h"
#include "zserio/ReflectableData.h"
#include "zserio/ReflectableUtil.h"
#include "zserio/SerializeUtil.h"
#include "zserio/SqliteConnection.h"
#include "zserio/SqliteUtil.h"
#include "zserio/TypeInfoUtil.h"
#include "zserio/UniquePtr.h"
#include "zserio/ValidationSqliteUtil.h"
#include "zserio/Walker.h"
#include "zserio/ZserioTreeCreator.h"

namespace c27
{
namespace
{
namespace N = tobj::TOBJ_NS;
using A = ::test_object::TOBJ_NS::CreatorNested::allocator_type;
using K = life::Kit<A>;
using Str = zserio::BasicString<zserio::RebindAlloc<A, char>>;
constexpr bool PROPAGATING = !std::is_same_v<A, std::pmr::polymorphic_allocator<uint8_t>>;

// memory may come from r0 only while it lives
struct Only
{
    vh::Case& c;
    life::Resources& res;
    std::string what;
    uint64_t before;
    std::optional<vh::Forbid> forbid;
    Only(vh::Case& c, life::Resources& res, std::string w) :
            c(c),
            res(res),
            what(std::move(w)),
            before(res.def.total() + res.r1.total())
    {
        res.def.unwanted = true;
        res.r1.unwanted = true;
        forbid.emplace();
    }
    // foreign allocations
    void done()
    {
        const uint64_t heap = forbid->hits();
        forbid.reset();
        res.def.unwanted = false;
        res.r1.unwanted = false;
        const uint64_t other = res.def.total() + res.r1.total() - before;
        const vh::Pause p;
        if (heap != 0)
        {
            c.report("heap:" + what, vh::str(K::name, " ", what, " made ", heap, " allocations on the heap"));
        }
        if (other != 0)
        {
            c.report("other-resource:" + what, vh::str(K::name, " ", what, " made ", other, " allocations in the default resource"));
        }
        if (!life::st().error.empty())
        {
            c.fail("resource:" + what, life::st().error);
        }
        c.eval(3);
        c.count("operations");
    }
    ~Only()
    {
        res.def.unwanted = false;
        res.r1.unwanted = false;
    }
};
// the default resource is r0 while it lives
struct AsDefault
{
    std::pmr::memory_resource* old;
    explicit AsDefault(std::pmr::memory_resource& r) :
            old(std::pmr::set_default_resource(&r))
    {}
    ~AsDefault()
    {
        std::pmr::set_default_resource(old);
    }
};
// stream buffers without memory of their own
struct FixedOut : std::streambuf
{
    explicit FixedOut(std::vector<char>& v)
    {
        setp(v.data(), v.data() + v.size());
    }
    size_t size() const
    {
        return static_cast<size_t>(pptr() - pbase());
    }
};
struct FixedIn : std::streambuf
{
    explicit FixedIn(std::string& s, size_t chunk) :
            m_chunk(chunk)
    {
        setg(s.data(), s.data(), s.data() + s.size());
    }
    // the text comes in parts
    std::streamsize xsgetn(char* to, std::streamsize n) override
    {
        return std::streambuf::xsgetn(to, std::min<std::streamsize>(n, static_cast<std::streamsize>(m_chunk)));
    }

private:
    size_t m_chunk;
};

template <typename H>
void readAll(const H& h, const A& a, size_t& n, int depth)
{
    if (!h || depth > 6)
    {
        return;
    }
    const auto& t = h->getTypeInfo();
    if (h->isArray())
    {
        for (size_t i = 0; i < h->size(); ++i)
        {
            readAll(h->at(i), a, n, depth + 1);
        }
        return;
    }
    ++n;
    const auto any = h->getAnyValue(a);
    n += any.hasValue() ? 1 : 0;
    if (zserio::TypeInfoUtil::isCompound(t.getCppType()))
    {
        if (zserio::TypeInfoUtil::hasChoice(t.getCppType()))
        {
            const auto name = h->getChoice();
            if (!name.empty())
            {
                readAll(h->getField(name), a, n, depth + 1);
            }
            return;
        }
        for (const auto& f : t.getFields())
        {
            readAll(h->getField(f.schemaName), a, n, depth + 1);
            (void)h->find(f.schemaName);
        }
        return;
    }
    switch (t.getCppType())
    {
    case zserio::CppType::BYTES:
    case zserio::CppType::BIT_BUFFER:
        break;
    default:
    {
        const auto s = h->toString(a);
        n += s.size();
        break;
    }
    }
}

// the type information is built on the first use and shared: not a part of any object
template <typename I>
void warm(const I& t, int depth)
{
    if (depth > 5)
    {
        return;
    }
    (void)t.getSchemaName();
    if (zserio::TypeInfoUtil::isCompound(t.getCppType()))
    {
        for (const auto& f : t.getFields())
        {
            warm(f.typeInfo, depth + 1);
        }
    }
}

template <typename T, typename G>
void operations(vh::Case& c, G&& gen)
{
    auto& r = c.rng;
    tobj::Gen g(r, tobj::Gen::UTF8, c.thorough ? 12 : 6, 60);
    const tobj::Node n = gen(g);
    c.trace(n.text(300));
    const auto bytes = tobj::encodeBytes(n);
    const size_t bits = [&]() {
        tobj::Bits b;
        tobj::encode(n, b);
        return b.size();
    }();
    static const bool warmed = (warm(zserio::typeInfo<T, A>(), 0), true);
    (void)warmed;
    life::Resources res;
    const A alloc = K::make(res, 0);
    {
        std::optional<AsDefault> inR0;
        inR0.emplace(res.r0);
        T obj{alloc};
        N::build(n, obj);
        const T& cobj = obj;
        zserio::BasicBitBuffer<A> buffer(zserio::Vector<uint8_t, A>(bytes.begin(), bytes.end(), alloc), bits, alloc);
        inR0.reset();
        const auto args = N::args(n, static_cast<T*>(nullptr));
        const auto op = [&](const char* what, auto f) {
            Only only(c, res, what);
            f();
            only.done();
        };
        op("construct", [&]() { const T x{alloc}; });
        op("copy and move with an allocator", [&]() {
            T x(cobj, alloc);
            T y(std::move(x), alloc);
            VH_CHECK(c, y == cobj, "copy", "");
            x = y;
            VH_CHECK(c, x == cobj, "copy", "");
            T z(std::move(y));
            x = std::move(z);
            VH_CHECK(c, x == cobj, "copy", "");
        });
        if constexpr (PROPAGATING)
        {
            op("copy", [&]() {
                T x(cobj);
                T y{alloc};
                y = x;
                const T z(std::move(y));
            });
        }
        op("bit buffer", [&]() {
            using BB = zserio::BasicBitBuffer<A>;
            const BB b(buffer.getData(), bits, alloc);
            BB b2(b, alloc);
            const BB b3(std::move(b2), alloc);
            BB b4(bits, alloc);
            b4 = b3;
            BB b5(alloc);
            b5 = std::move(b4);
            VH_CHECK(c, b5 == b, "bit buffer", "");
        });
        op("collections", [&]() {
            zserio::Vector<T, zserio::RebindAlloc<A, T>> v{zserio::RebindAlloc<A, T>(alloc)};
            v.emplace_back();
            v.push_back(cobj);
            v.emplace_back(cobj);
            v.erase(v.begin());
            auto p = zserio::allocate_unique<T>(alloc, cobj);
            zserio::BasicOptional<A, T> o(std::in_place, alloc, cobj);
            const zserio::BasicOptional<A, T> o2(std::move(o), alloc);
            zserio::BasicAny<A> any(alloc);
            any.template emplace<T>(cobj);
            zserio::BasicAny<A> any2(any, alloc);
            any.set(cobj);
            any2 = std::move(any);
            VH_CHECK(c, v[0] == cobj && v[1] == cobj && *p == cobj && *o2 == cobj && any2.template get<T>() == cobj, "collections", "");
        });
        op("compare and hash", [&]() {
            volatile bool b = cobj == cobj;
            b = cobj < cobj;
            volatile uint32_t h = static_cast<uint32_t>(std::hash<T>()(cobj));
            (void)b;
            (void)h;
        });
        std::apply(
                [&](const auto&... v) {
                    const zserio::View<T> view(cobj, v...);
                    op("serialize", [&]() {
                        const auto b = zserio::serialize(view, alloc);
                        const auto b2 = zserio::serializeToBytes(view, alloc);
                        VH_CHECK(c, b.getBitSize() == bits && b2.size() == bytes.size(), "serialize", "");
                    });
                    op("serialize data", [&]() {
                        const auto b = zserio::serialize(cobj, alloc, v...);
                        VH_CHECK(c, b.getBitSize() == bits, "serialize", "");
                    });
                    op("deserialize into", [&]() {
                        T x{alloc};
                        (void)zserio::deserialize(buffer, x, v...);
                        VH_CHECK(c, x == cobj, "deserialize", "");
                    });
                    op("deserialize", [&]() {
                        const auto dv = zserio::deserialize<T>(buffer, alloc, v...);
                        VH_CHECK(c, dv.zserioData() == cobj, "deserialize", "");
                    });
                    op("deserialize bytes", [&]() {
                        const auto dv = zserio::deserializeFromBytes<T>(buffer.getData(), alloc, v...);
                        VH_CHECK(c, dv.zserioData() == cobj, "deserialize", "");
                    });
                    if constexpr (PROPAGATING)
                    {
                        op("data view", [&]() {
                            const zserio::DataView<T> dv(cobj, v...);
                            const zserio::DataView<T> dv2(dv);
                            const auto b = zserio::serialize(dv2, alloc);
                            VH_CHECK(c, b.getBitSize() == bits, "serialize", "");
                        });
                    }
                    op("introspectable", [&]() {
                        const auto h = zserio::introspectable(view, alloc);
                        size_t k = 0;
                        readAll(h, alloc, k, 0);
                        const auto b = h->serialize(alloc);
                        VH_CHECK(c, b.getBitSize() == bits, "serialize", "");
                    });
                },
                args);
        op("reflectable", [&]() {
            const auto h = zserio::reflectable(cobj, alloc);
            size_t k = 0;
            readAll(h, alloc, k, 0);
            const auto h2 = zserio::reflectable(obj, alloc);
            readAll(h2, alloc, k, 0);
        });
        std::vector<char> space(400000);
        std::string json;
        {
            FixedOut buf(space);
            std::ostream os(&buf);
            op("write JSON", [&]() {
                zserio::BasicJsonWriter<A> w(os, 2, alloc);
                zserio::BasicWalker<A> walker(w);
                walker.walk(zserio::reflectable(cobj, alloc));
            });
            json.assign(space.data(), buf.size());
            FixedOut buf2(space);
            std::ostream os2(&buf2);
            op("toJsonStream", [&]() { zserio::toJsonStream(cobj, os2, 2, alloc); });
        }
        if (PROPAGATING)
        {
            op("toJsonString", [&]() { const auto s = zserio::toJsonString(cobj, alloc); });
        }
        {
            FixedIn buf(json, r.flip() ? 65536 : 20 + r.below(300));
            std::istream is(&buf);
            op("fromJsonStream", [&]() {
                const T x = zserio::fromJsonStream<T>(is, alloc);
                VH_CHECK(c, x == cobj, "json", "");
            });
        }
        op("createInstance", [&]() {
            const auto h = zserio::typeInfo<T, A>().createInstance(alloc);
            size_t k = 0;
            readAll(zserio::IBasicReflectableDataConstPtr<A>(h), alloc, k, 0);
        });
        if constexpr (std::tuple_size_v<std::decay_t<decltype(args)>> == 0)
        {
            if constexpr (PROPAGATING)
            {
                op("service data", [&]() {
                    const zserio::BasicIntrospectableServiceData<T, A> d(cobj, alloc);
                    (void)d.getData();
                    (void)d.getIntrospectable();
                    const zserio::BasicObjectServiceData<A> o(cobj, alloc);
                });
            }
        }
        c.distinct(vh::hashStr(n.text(2000)));
        c.sample(vh::str(n.text(160), " used ", res.r0.total(), " blocks of its resource"));
    }
    VH_CHECK(c, life::st().error.empty(), "resource", life::st().error);
    VH_CHECK(c, res.r0.live() == 0, "not-returned", "");
}

// which resources an operation may take memory from
struct May
{
    vh::Case& c;
    life::Resources& res;
    std::string what;
    bool may[3] = {false, false, false};
    uint64_t before[3];
    std::optional<vh::Forbid> forbid;
    uint64_t total(int i) const
    {
        return i == 0 ? res.r0.total() : (i == 1 ? res.r1.total() : res.def.total());
    }
    May(vh::Case& c, life::Resources& res, std::string w, std::initializer_list<int> ids) :
            c(c),
            res(res),
            what(std::move(w))
    {
        for (const int i : ids)
        {
            may[i] = true;
        }
        for (int i = 0; i < 3; ++i)
        {
            before[i] = total(i);
        }
        res.r0.unwanted = !may[0];
        res.r1.unwanted = !may[1];
        res.def.unwanted = !may[2];
        forbid.emplace();
    }
    void done()
    {
        const uint64_t heap = forbid->hits();
        forbid.reset();
        const vh::Pause p;
        res.r0.unwanted = res.r1.unwanted = res.def.unwanted = false;
        if (heap != 0)
        {
            c.report("heap:" + what, vh::str(K::name, " ", what, " made ", heap, " allocations on the heap"));
        }
        for (int i = 0; i < 3; ++i)
        {
            if (!may[i] && total(i) != before[i])
            {
                c.report("other-resource:" + what,
                        vh::str(K::name, " ", what, " made ", total(i) - before[i], " allocations in resource ", i));
            }
        }
        if (!life::st().error.empty())
        {
            c.fail("resource:" + what, life::st().error);
        }
        c.eval(4);
        c.count("steps");
    }
    ~May()
    {
        res.r0.unwanted = res.r1.unwanted = res.def.unwanted = false;
    }
};

// objects in different resources which are copied, moved, assigned, read and dropped in any order
template <typename T, typename G>
void histories(vh::Case& c, G&& gen)
{
    auto& r = c.rng;
    static const bool warmed = (warm(zserio::typeInfo<T, A>(), 0), true);
    (void)warmed;
    life::Resources res;
    const auto which = [&](int i) -> std::pmr::memory_resource& {
        return i == 0 ? static_cast<std::pmr::memory_resource&>(res.r0)
                      : (i == 1 ? static_cast<std::pmr::memory_resource&>(res.r1) : res.def);
    };
    {
        struct Slot
        {
            std::unique_ptr<T> obj;
            tobj::Node node;
            std::string text; // empty when moved from
            int id = 0;
        };
        constexpr size_t SLOTS = 4;
        std::array<Slot, SLOTS> slots;
        const auto fresh = [&](Slot& s) {
            tobj::Gen g(r, tobj::Gen::UTF8, 4, 40);
            s.obj.reset();
            s.node = gen(g);
            s.text = s.node.text(100000);
            s.id = static_cast<int>(r.below(3));
            const AsDefault d(which(s.id));
            s.obj = std::make_unique<T>(K::make(res, s.id));
            N::build(s.node, *s.obj);
        };
        const auto verify = [&](const char* when) {
            for (size_t i = 0; i < SLOTS; ++i)
            {
                if (slots[i].obj && !slots[i].text.empty())
                {
                    const auto got = N::extract(*slots[i].obj).text(100000);
                    VH_EQ(c, got, slots[i].text, "contents", vh::str(when, " "), vh::str("slot ", i));
                }
            }
        };
        for (auto& s : slots)
        {
            fresh(s);
        }
        const size_t steps = 4 + r.below(10);
        for (size_t step = 0; step < steps; ++step)
        {
            Slot& to = slots[r.below(SLOTS)];
            Slot& from = slots[r.below(SLOTS)];
            const int pick = static_cast<int>(r.below(9));
            if (&to == &from || !from.obj || from.text.empty())
            {
                fresh(from);
                verify("fresh");
                continue;
            }
            const int other = static_cast<int>(r.below(3));
            const char* what = "";
            // the storage of the object itself is not a part of the property
            alignas(T) unsigned char raw[sizeof(T)];
            const auto take = [&](T* p, int id, bool movedFrom) {
                to.obj.reset();
                // the new object was built in the raw storage
                to.obj = std::make_unique<T>(std::move(*p));
                p->~T();
                to.id = id;
                to.node = from.node;
                to.text = from.text;
                if (movedFrom)
                {
                    from.text.clear();
                }
            };
            switch (pick)
            {
            case 0:
            {
                what = "copy construction";
                const int id = K::copyCtor(from.id);
                May may(c, res, what, {id});
                T* p = new (raw) T(*from.obj);
                may.done();
                take(p, id, false);
                break;
            }
            case 1:
            {
                what = "move construction";
                May may(c, res, what, {from.id});
                T* p = new (raw) T(std::move(*from.obj));
                may.done();
                take(p, from.id, true);
                break;
            }
            case 2:
            {
                what = "copy construction with an allocator";
                const A a = K::make(res, other);
                May may(c, res, what, {other});
                T* p = new (raw) T(*from.obj, a);
                may.done();
                take(p, other, false);
                break;
            }
            case 3:
            {
                what = "move construction with an allocator";
                const A a = K::make(res, other);
                May may(c, res, what, {other});
                T* p = new (raw) T(std::move(*from.obj), a);
                may.done();
                take(p, other, true);
                break;
            }
            case 4:
            case 5:
            {
                if (!to.obj)
                {
                    break;
                }
                what = "copy assignment";
                const int id = K::assign(to.id, from.id);
                May may(c, res, what, {id});
                *to.obj = *from.obj;
                may.done();
                to.id = id;
                to.node = from.node;
                to.text = from.text;
                break;
            }
            case 6:
            {
                if (!to.obj)
                {
                    break;
                }
                what = "move assignment";
                const int id = K::assign(to.id, from.id);
                May may(c, res, what, {id});
                *to.obj = std::move(*from.obj);
                may.done();
                to.id = id;
                to.node = from.node;
                to.text = from.text;
                from.text.clear();
                break;
            }
            case 7:
            {
                what = "reading";
                const auto bytes = tobj::encodeBytes(from.node);
                tobj::Bits b;
                tobj::encode(from.node, b);
                std::optional<AsDefault> d;
                d.emplace(which(other));
                const A a = K::make(res, other);
                const zserio::BasicBitBuffer<A> buffer(
                        zserio::Vector<uint8_t, A>(bytes.begin(), bytes.end(), a), b.size(), a);
                to.obj = std::make_unique<T>(a);
                d.reset();
                std::apply(
                        [&](const auto&... v) {
                            May may(c, res, what, {other});
                            (void)zserio::deserialize(buffer, *to.obj, v...);
                            may.done();
                        },
                        N::args(from.node, static_cast<T*>(nullptr)));
                to.id = other;
                to.node = from.node;
                to.text = from.text;
                break;
            }
            default:
            {
                what = "destruction";
                May may(c, res, what, {});
                to.obj->~T();
                may.done();
                new (to.obj.get()) T(K::make(res, to.id));
                to.text.clear();
                break;
            }
            }
            c.trace(what);
            verify(what);
            c.count((std::string("step_") + what).c_str());
            c.distinct(vh::hashStr(vh::str(what, from.id, to.id, other)));
        }
    }
    VH_CHECK(c, life::st().error.empty(), "resource", life::st().error);
    VH_CHECK(c, res.r0.live() == 0 && res.r1.live() == 0 && res.def.live() == 0, "not-returned", "");
}

// columns of a database and what is known about its tables
// the memory of SQLite itself does not count
inline void setupSqlite()
{
    static sqlite3_mem_methods own;
    static const bool done = []() {
        sqlite3_config(SQLITE_CONFIG_GETMALLOC, &own);
        sqlite3_mem_methods m = own;
        m.xMalloc = [](int n) {
            const vh::Exempt e;
            return own.xMalloc(n);
        };
        m.xRealloc = [](void* p, int n) {
            const vh::Exempt e;
            return own.xRealloc(p, n);
        };
        sqlite3_config(SQLITE_CONFIG_MALLOC, &m);
        return true;
    }();
    (void)done;
}

template <typename T, typename G>
void database(vh::Case& c, G&& gen)
{
    auto& r = c.rng;
    tobj::Gen g(r, tobj::Gen::UTF8_NONUL, 6, 80);
    const tobj::Node n = gen(g);
    const std::string text = r.chance(10) ? std::string() : g.str();
    life::Resources res;
    const A alloc = K::make(res, 0);
    {
        setupSqlite();
        sqlite3* raw = nullptr;
        VH_CHECK(c, sqlite3_open(":memory:", &raw) == SQLITE_OK, "open", "");
        zserio::SqliteConnection connection(raw, zserio::SqliteConnection::INTERNAL_CONNECTION);
        std::optional<AsDefault> inR0;
        inR0.emplace(res.r0);
        T obj{alloc};
        N::build(n, obj);
        zserio::BasicOptional<A, T> back{alloc};
        zserio::BasicOptional<A, Str> backText{alloc};
        inR0.reset();
        const auto op = [&](const char* what, auto f) {
            Only only(c, res, what);
            f();
            only.done();
        };
        connection.executeUpdate("CREATE TABLE aTableWithALongName(aColumnWithALongName BLOB NOT NULL, another_column_with_a_long_name TEXT, "
                                 "id INTEGER PRIMARY KEY)");
        std::apply(
                [&](const auto&... v) {
                    const zserio::View<T> view(obj, v...);
                    op("bind columns", [&]() {
                        sqlite3_stmt* s = connection.prepareStatement("INSERT INTO aTableWithALongName VALUES(?1, ?2, 1)");
                        const auto size = zserio::detail::prepareColumn(view);
                        int rc = zserio::detail::bindColumn(*s, 1, view, size, alloc);
                        rc = rc != 0 ? rc : zserio::detail::bindColumn(*s, 2, std::string_view(text), 0, alloc);
                        rc = rc != 0 ? rc : sqlite3_step(s);
                        sqlite3_finalize(s);
                        VH_CHECK(c, rc == SQLITE_DONE, "insert", "");
                    });
                    op("read columns", [&]() {
                        sqlite3_stmt* s = connection.prepareStatement("SELECT * FROM aTableWithALongName");
                        const int rc = sqlite3_step(s);
                        zserio::detail::readColumn(back, *s, 0, v...);
                        zserio::detail::readColumn(backText, *s, 1);
                        sqlite3_finalize(s);
                        VH_CHECK(c, rc == SQLITE_ROW && back.has_value() && *back == obj, "fetch", "");
                        VH_CHECK(c, backText.has_value() && *backText == std::string_view(text), "fetch", "");
                    });
                },
                N::args(n, static_cast<T*>(nullptr)));
        using Util = zserio::ValidationSqliteUtil<A>;
        op("table schema", [&]() {
            typename Util::TableSchema schema(alloc);
            Util::getTableSchema(connection, r.flip() ? "main" : "", "aTableWithALongName", schema, alloc);
            VH_CHECK(c, schema.size() == 3, "schema", "");
        });
        op("rows and columns", [&]() {
            const size_t rows = Util::getNumberOfTableRows(connection, r.flip() ? "main" : "", "aTableWithALongName", alloc);
            VH_CHECK(c, rows == 1, "rows", "");
            VH_CHECK(c, Util::isColumnInTable(connection, "", "aTableWithALongName", "another_column_with_a_long_name", alloc), "column", "");
        });
        // the exception itself is on the heap
        const uint64_t before = res.def.total();
        VH_CHECK(c, !Util::isColumnInTable(connection, "", "aTableWithALongName", "missing_column_with_a_long_name", alloc), "column", "");
        VH_CHECK(c, res.def.total() == before, "other-resource:missing column", "");
        c.distinct(vh::hashStr(n.text(2000)));
    }
    VH_CHECK(c, life::st().error.empty(), "resource", life::st().error);
    VH_CHECK(c, res.r0.live() == 0, "not-returned", "");
}

} // namespace
static void runDatabase(vh::Case& c)
{
    N::withAnyType(c.idx, [&](auto* t, auto gen) { database<std::remove_pointer_t<decltype(t)>>(c, gen); });
}
static void runHistories(vh::Case& c)
{
    N::withAnyType(c.idx, [&](auto* t, auto gen) { histories<std::remove_pointer_t<decltype(t)>>(c, gen); });
}
static void runOperations(vh::Case& c)
{
    N::withAnyType(c.idx, [&](auto* t, auto gen) { operations<std::remove_pointer_t<decltype(t)>>(c, gen); });
}
} // namespace c27
