// C32: service data. Included with TOBJ_NS defined.
#include <memory>
#include <vector>

#include "zserio/IService.h"
#include "zserio/IntrospectableView.h"
#include "zserio/ReflectableData.h"
#include "zserio/SerializeUtil.h"
#include "zserio/ServiceException.h"
#include "zserio/TypeInfoUtil.h"

namespace c32
{
namespace
{
namespace N = tobj::TOBJ_NS;
using A = ::test_object::TOBJ_NS::CreatorNested::allocator_type;
#include "show.inc"

std::string bytesOf(zserio::Span<const uint8_t> s)
{
    return std::string(reinterpret_cast<const char*>(s.data()), s.size());
}
std::string asString(const std::vector<uint8_t>& v)
{
    return std::string(v.begin(), v.end());
}

// one service data object and what it must contain
template <typename T>
struct Item
{
    using D = zserio::BasicIntrospectableServiceData<T, A>;
    std::unique_ptr<D> d;
    tobj::Node node;
    bool known = true; // false after its content was moved away
};

template <typename T>
std::string wantShown(const tobj::Node& n)
{
    T o{A{}};
    N::build(n, o);
    const zserio::View<T> v(o);
    return shown(zserio::introspectable(v, A()));
}

template <typename T>
void checkItem(vh::Case& c, const Item<T>& it, const std::string& log, bool dataFirst)
{
    if (!it.known)
    {
        return;
    }
    const std::string want = asString(tobj::encodeBytes(it.node));
    const zserio::IBasicServiceData<A>& base = *it.d;
    const auto data = [&]() {
        const auto s1 = base.getData();
        VH_CHECK(c, bytesOf(s1) == want, "data", log, " got ", vh::hex(s1.data(), s1.size()), " expected ", vh::hex(want.data(), want.size()));
        const auto s2 = base.getData();
        VH_CHECK(c, s1.size() == 0 || (s1.data() == s2.data() && s1.size() == s2.size()), "data-moved", log);
        VH_CHECK(c, bytesOf(s1) == want, "data-again", log);
    };
    const auto intro = [&]() {
        const auto h = base.getIntrospectable();
        VH_CHECK(c, h != nullptr, "no-introspectable", log);
        const std::string got = shown(h);
        const std::string exp = wantShown<T>(it.node);
        VH_CHECK(c, got == exp, "introspectable", log, " got ", got, " expected ", exp);
        const auto b = h->serialize(A());
        VH_CHECK(c, bytesOf(b.getData()) == want, "introspectable-serialize", log);
    };
    if (dataFirst)
    {
        data();
        intro();
    }
    else
    {
        intro();
        data();
    }
    c.count("contents");
}

template <typename T, typename G>
void histories(vh::Case& c, G&& gen)
{
    auto& r = c.rng;
    tobj::Gen g(r, tobj::Gen::UTF8, 4, 12);
    using D = typename Item<T>::D;
    std::vector<Item<T>> items;
    std::string log;
    uint64_t h = 0;
    const auto make = [&](Item<T>& it) {
        it.node = gen(g);
        T o{A{}};
        N::build(it.node, o);
        const bool move = r.flip();
        it.d = move ? std::make_unique<D>(std::move(o), A()) : std::make_unique<D>(o, A());
        it.known = true;
        log += move ? "made by move; " : "made; ";
        h = vh::mix(h, vh::hashStr(it.node.text(60)));
        if (!move)
        {
            // the service data holds an object of its own
            N::build(gen(g), o);
        }
    };
    const size_t n = 2 + r.below(2);
    items.resize(n);
    for (auto& it : items)
    {
        make(it);
    }
    const size_t steps = 1 + r.below(c.thorough ? 24 : 10);
    for (size_t s = 0; s < steps; ++s)
    {
        Item<T>& a = items[r.below(n)];
        Item<T>& b = items[r.below(n)];
        const auto op = r.below(9);
        h = vh::mix(h, op * 64 + static_cast<uint64_t>(&a - items.data()) * 8 + static_cast<uint64_t>(&b - items.data()));
        log += vh::str(op, ":", &a - items.data(), ",", &b - items.data(), "; ");
        switch (op)
        {
        case 0:
            make(a);
            break;
        case 1: // copy, the original goes away
            if (&a != &b)
            {
                a.d = std::make_unique<D>(*b.d);
                a.node = b.node;
                a.known = b.known;
                c.count("copied");
                if (r.flip())
                {
                    make(b);
                    log += "original gone; ";
                }
            }
            break;
        case 2:
            if (&a != &b)
            {
                a.d = std::make_unique<D>(std::move(*b.d));
                a.node = b.node;
                a.known = b.known;
                b.known = false;
                c.count("moved");
                if (r.flip())
                {
                    make(b);
                    log += "original gone; ";
                }
            }
            break;
        case 3:
        {
            const auto before = a.d->getIntrospectable();
            *a.d = *b.d;
            a.node = b.node;
            a.known = b.known;
            c.count("assigned");
            break;
        }
        case 4:
            if (&a != &b)
            {
                *a.d = std::move(*b.d);
                a.node = b.node;
                a.known = b.known;
                b.known = false;
                c.count("move_assigned");
            }
            break;
        case 5: // the interface obtained before outlives nothing but the data object
        case 6:
            checkItem(c, a, log, r.flip());
            break;
        case 7: // polymorphic use through a shared pointer of the interface
        {
            const zserio::IBasicServiceDataPtr<A> p = std::allocate_shared<D>(A(), *b.d);
            if (b.known)
            {
                VH_CHECK(c, bytesOf(p->getData()) == asString(tobj::encodeBytes(b.node)), "shared-data", log);
                VH_CHECK(c, shown(p->getIntrospectable()) == wantShown<T>(b.node), "shared-introspectable", log);
            }
            break;
        }
        default:
        {
            std::vector<D> v;
            for (size_t i = 0; i < 3; ++i)
            {
                v.push_back(*b.d); // grows: elements are moved
            }
            if (b.known)
            {
                for (const auto& d : v)
                {
                    VH_CHECK(c, bytesOf(d.getData()) == asString(tobj::encodeBytes(b.node)), "vector-data", log);
                    VH_CHECK(c, shown(d.getIntrospectable()) == wantShown<T>(b.node), "vector-introspectable", log);
                }
            }
            break;
        }
        }
        c.count("steps");
    }
    for (const auto& it : items)
    {
        checkItem(c, it, log, r.flip());
    }
    c.distinct(h);
    if (c.wantSample())
    {
        c.sample(log);
    }
}

// a service that answers with the request decoded and encoded again, and a client that calls it
template <typename T>
class Service : public zserio::IBasicService<A>
{
public:
    zserio::IBasicServiceDataPtr<A> callMethod(std::string_view method, zserio::Span<const uint8_t> request, void* context) override
    {
        ++*static_cast<int*>(context);
        if (method == "echo")
        {
            T o{A{}};
            (void)zserio::deserializeFromBytes(request, o);
            return std::allocate_shared<zserio::BasicIntrospectableServiceData<T, A>>(A(), std::move(o), A());
        }
        if (method == "object")
        {
            T o{A{}};
            (void)zserio::deserializeFromBytes(request, o);
            return std::allocate_shared<zserio::BasicObjectServiceData<A>>(A(), o, A());
        }
        if (method == "raw")
        {
            return std::allocate_shared<zserio::BasicRawServiceDataHolder<A>>(A(), zserio::Vector<uint8_t, A>(request.begin(), request.end()));
        }
        throw zserio::ServiceException("no method ") << method;
    }
};
template <typename T>
class Client : public zserio::IBasicServiceClient<A>
{
public:
    explicit Client(Service<T>& s) :
            m_service(s)
    {}
    zserio::Vector<uint8_t, A> callMethod(std::string_view method, const zserio::IBasicServiceData<A>& request, void* context) override
    {
        const auto answer = m_service.callMethod(method, request.getData(), context);
        const auto s = answer->getData();
        return zserio::Vector<uint8_t, A>(s.begin(), s.end());
    }

private:
    Service<T>& m_service;
};

template <typename T, typename G>
void others(vh::Case& c, G&& gen)
{
    auto& r = c.rng;
    tobj::Gen g(r, tobj::Gen::UTF8, 4, 12);
    const tobj::Node n = gen(g);
    T o{A{}};
    N::build(n, o);
    const std::string want = asString(tobj::encodeBytes(n));
    const std::string what = n.text(200);
    {
        // data, view and data view of the object
        const zserio::BasicObjectServiceData<A> d1(o, A());
        const zserio::View<T> v(o);
        const zserio::BasicObjectServiceData<A> d2(v, A());
        const zserio::DataView<T> dv{T(o)};
        const zserio::BasicObjectServiceData<A> d3(dv, A());
        const zserio::BasicObjectServiceData<A> copy(d1);
        N::build(gen(g), o);
        for (const auto* d : {&d1, &d2, &d3, &copy})
        {
            VH_CHECK(c, bytesOf(d->getData()) == want, "object-data", what);
            VH_CHECK(c, d->getIntrospectable() == nullptr, "object-introspectable", what);
        }
        N::build(n, o);
        c.count("objects");
    }
    {
        const zserio::Vector<uint8_t, A> raw(want.begin(), want.end());
        const zserio::BasicRawServiceDataHolder<A> h1(raw);
        zserio::Vector<uint8_t, A> moved(raw);
        const uint8_t* where = moved.data();
        const zserio::BasicRawServiceDataHolder<A> h2(std::move(moved));
        const zserio::BasicRawServiceDataHolder<A> h3(h1);
        const zserio::BasicRawServiceDataView<A> view(raw);
        VH_CHECK(c, bytesOf(h1.getData()) == want && bytesOf(h3.getData()) == want, "raw-data", what);
        VH_CHECK(c, raw.empty() || (h1.getData().data() != raw.data() && h3.getData().data() != h1.getData().data()), "raw-holder-own", what);
        VH_CHECK(c, bytesOf(h2.getData()) == want && (raw.empty() || h2.getData().data() == where), "raw-moved", what);
        VH_CHECK(c, view.getData().data() == raw.data() && view.getData().size() == raw.size(), "raw-view", what);
        VH_CHECK(c, !h1.getIntrospectable() && !view.getIntrospectable(), "raw-introspectable", what);
        c.count("raw");
    }
    {
        Service<T> service;
        Client<T> client(service);
        const zserio::BasicIntrospectableServiceData<T, A> request(o, A());
        int calls = 0;
        for (const char* m : {"echo", "object", "raw"})
        {
            const auto got = client.callMethod(m, request, &calls);
            VH_CHECK(c, std::string(got.begin(), got.end()) == want, "call", m, " ", what);
        }
        VH_EQ(c, calls, 3, "context", what);
        bool thrown = false;
        try
        {
            (void)client.callMethod("nothing", request, &calls);
        }
        catch (const zserio::CppRuntimeException& e)
        {
            thrown = std::string(e.what()) == "no method nothing" && dynamic_cast<const zserio::ServiceException*>(&e) != nullptr;
        }
        VH_CHECK(c, thrown, "service-exception", what);
        c.count("calls", 4);
    }
    c.distinct(want);
}

// an object that cannot be serialised
void unserialisable(vh::Case& c)
{
    using W = ::test_object::TOBJ_NS::WalkerObject;
    auto& r = c.rng;
    tobj::Gen g(r, tobj::Gen::UTF8, 3, 8);
    tobj::Node good;
    N::forEachType([&](auto* t, auto gen) {
        if constexpr (std::is_same_v<std::remove_pointer_t<decltype(t)>, W>)
        {
            good = gen(g);
        }
    });
    W bad{A{}};
    N::build(good, bad);
    W fine(bad);
    // the condition on `nested` depends on the identifier
    bad.identifier = bad.nested.has_value() ? 0 : 7;
    zserio::BasicIntrospectableServiceData<W, A> d(bad, A());
    for (int i = 0; i < 3; ++i)
    {
        bool thrown = false;
        try
        {
            (void)d.getData();
        }
        catch (const zserio::CppRuntimeException&)
        {
            thrown = true;
        }
        VH_CHECK(c, thrown, "unserialisable-accepted", "");
    }
    d = zserio::BasicIntrospectableServiceData<W, A>(fine, A());
    VH_CHECK(c, bytesOf(d.getData()) == asString(tobj::encodeBytes(good)), "data-after-failure", "");
    c.count("refused");
    bool thrown = false;
    try
    {
        zserio::BasicObjectServiceData<A> no(bad, A());
    }
    catch (const zserio::CppRuntimeException&)
    {
        thrown = true;
    }
    VH_CHECK(c, thrown, "unserialisable-object-accepted", "");
    c.distinct(c.idx);
}

template <typename F>
void withType(vh::Case& c, F&& f)
{
    uint64_t i = 0;
    uint64_t count = 0;
    N::forEachType([&](auto*, auto) { ++count; });
    N::forEachType([&](auto* t, auto gen) {
        if (i++ == c.idx % count)
        {
            f(t, gen);
        }
    });
}

} // namespace

static void runHistories(vh::Case& c)
{
    withType(c, [&](auto* t, auto gen) { c32::histories<std::remove_pointer_t<decltype(t)>>(c, gen); });
}
static void runOthers(vh::Case& c)
{
    withType(c, [&](auto* t, auto gen) { c32::others<std::remove_pointer_t<decltype(t)>>(c, gen); });
}

} // namespace c32
