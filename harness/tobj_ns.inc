// Bindings of the value trees to the generated objects of one allocator: define TOBJ_NS before including.
namespace tobj
{
namespace TOBJ_NS
{

namespace O = ::test_object::TOBJ_NS;

template <typename S>
void setText(S& dst, const std::string& s)
{
    dst.assign(s.data(), s.size());
}
template <typename B>
void setBytes(B& dst, const std::string& s)
{
    dst.assign(s.begin(), s.end());
}
template <typename B>
void setBits(B& dst, const std::string& s, size_t bits)
{
    dst = B(zserio::Span<const uint8_t>(reinterpret_cast<const uint8_t*>(s.data()), s.size()), bits, dst.get_allocator());
}
template <typename S>
Node fromText(const S& s)
{
    return mkStr(std::string_view(s.data(), s.size()));
}
template <typename B>
Node fromBytes(const B& b)
{
    return mkBytes(std::string_view(reinterpret_cast<const char*>(b.data()), b.size()));
}
template <typename B>
Node fromBits(const B& b)
{
    return mkBits(std::string(reinterpret_cast<const char*>(b.getBuffer()), b.getByteSize()), b.getBitSize());
}
template <typename T>
Node fromU(const T& v, unsigned w)
{
    return mkInt(static_cast<i128>(static_cast<typename T::ValueType>(v)), w, false);
}
template <typename T>
T asInt(const Node& n)
{
    return T(static_cast<typename T::ValueType>(n.num));
}

// build fills an existing object with its own allocator, extract reads the members directly
inline void build(const Node& n, O::CreatorNested& o)
{
    o.value = asInt<zserio::UInt32>(n.at("value"));
    setText(o.text, n.at("text").s);
    setBits(o.externData, n.at("externData").s, n.at("externData").bitSize);
    setBytes(o.bytesData, n.at("bytesData").s);
    o.creatorEnum = static_cast<O::CreatorEnum>(static_cast<int8_t>(n.at("creatorEnum").num));
    o.creatorBitmask = O::CreatorBitmask(zserio::UInt8(static_cast<uint8_t>(n.at("creatorBitmask").num)));
}
inline Node extract(const O::CreatorNested& o)
{
    return mkObj("CreatorNested",
            {named("value", fromU(o.value, 32)), named("text", fromText(o.text)),
                    named("externData", fromBits(o.externData)), named("bytesData", fromBytes(o.bytesData)),
                    named("creatorEnum", mkEnum("CreatorEnum", static_cast<int8_t>(o.creatorEnum), 8)),
                    named("creatorBitmask",
                            mkMask("CreatorBitmask",
                                    static_cast<uint8_t>(static_cast<zserio::UInt8>(o.creatorBitmask.getValue())), 8))});
}
template <typename V, typename F>
void buildArr(const Node& n, V& v, F&& f)
{
    v.clear();
    v.reserve(n.kids.size());
    for (const Node& k : n.kids)
    {
        v.emplace_back();
        f(k, v.back());
    }
}
template <typename V, typename F>
Node extractArr(const V& v, F&& f)
{
    std::vector<Node> k;
    for (const auto& e : v)
    {
        k.push_back(f(e));
    }
    return mkArr(std::move(k));
}
inline void build(const Node& n, O::CreatorObject& o)
{
    o.value = asInt<zserio::UInt32>(n.at("value"));
    build(n.at("nested"), o.nested);
    setText(o.text, n.at("text").s);
    buildArr(n.at("nestedArray"), o.nestedArray, [](const Node& k, O::CreatorNested& e) { build(k, e); });
    buildArr(n.at("textArray"), o.textArray, [](const Node& k, auto& e) { setText(e, k.s); });
    o.externArray.reset();
    if (n.at("externArray").kind != Node::NUL)
    {
        o.externArray.emplace();
        buildArr(n.at("externArray"), *o.externArray, [](const Node& k, auto& e) { setBits(e, k.s, k.bitSize); });
    }
    o.bytesArray.reset();
    if (n.at("bytesArray").kind != Node::NUL)
    {
        o.bytesArray.emplace();
        buildArr(n.at("bytesArray"), *o.bytesArray, [](const Node& k, auto& e) { setBytes(e, k.s); });
    }
    o.optionalBool.reset();
    if (n.at("optionalBool").kind != Node::NUL)
    {
        o.optionalBool.emplace(n.at("optionalBool").num != 0);
    }
    o.optionalNested.reset();
    if (n.at("optionalNested").kind != Node::NUL)
    {
        o.optionalNested.emplace();
        build(n.at("optionalNested"), *o.optionalNested);
    }
}
inline Node extract(const O::CreatorObject& o)
{
    std::vector<Node> k;
    k.push_back(named("value", fromU(o.value, 32)));
    k.push_back(named("nested", extract(o.nested)));
    k.push_back(named("text", fromText(o.text)));
    k.push_back(named("nestedArray", extractArr(o.nestedArray, [](const O::CreatorNested& e) { return extract(e); })));
    k.push_back(named("textArray", extractArr(o.textArray, [](const auto& e) { return fromText(e); })));
    k.push_back(named("externArray",
            opt(o.externArray.has_value() ? extractArr(*o.externArray, [](const auto& e) { return fromBits(e); })
                                          : mkNull())));
    k.push_back(named("bytesArray",
            opt(o.bytesArray.has_value() ? extractArr(*o.bytesArray, [](const auto& e) { return fromBytes(e); })
                                         : mkNull())));
    k.push_back(named("optionalBool",
            opt(o.optionalBool.has_value() ? mkBool(static_cast<bool>(*o.optionalBool)) : mkNull())));
    k.push_back(named("optionalNested", opt(o.optionalNested.has_value() ? extract(*o.optionalNested) : mkNull())));
    return mkObj("CreatorObject", std::move(k));
}

inline void build(const Node& n, O::WalkerNested& o)
{
    setText(o.text, n.at("text").s);
}
inline Node extract(const O::WalkerNested& o)
{
    return mkObj("WalkerNested", {named("text", fromText(o.text))});
}
inline void build(const Node& n, O::WalkerUnion& o)
{
    using Tag = O::WalkerUnion::Tag;
    const Node& k = n.kids.at(0);
    switch (static_cast<int>(n.num))
    {
    case 0:
        o.emplace<Tag::value>(asInt<zserio::UInt32>(k));
        break;
    case 1:
        setText(o.emplace<Tag::text>(), k.s);
        break;
    default:
        buildArr(k, o.emplace<Tag::nestedArray>(), [](const Node& kk, O::WalkerNested& e) { build(kk, e); });
        break;
    }
}
inline Node extract(const O::WalkerUnion& o)
{
    using Tag = O::WalkerUnion::Tag;
    switch (o.index())
    {
    case Tag::value:
        return mkUnion("WalkerUnion", 0, named("value", fromU(o.get<Tag::value>(), 32)));
    case Tag::text:
        return mkUnion("WalkerUnion", 1, named("text", fromText(o.get<Tag::text>())));
    case Tag::nestedArray:
        return mkUnion("WalkerUnion", 2,
                named("nestedArray",
                        extractArr(o.get<Tag::nestedArray>(), [](const O::WalkerNested& e) { return extract(e); })));
    default:
        return mkUnion("WalkerUnion", -1, mkNull());
    }
}
inline void build(const Node& n, O::WalkerChoice& o)
{
    using Tag = O::WalkerChoice::Tag;
    if (n.kids.empty())
    {
        o.emplace<Tag::ZSERIO_UNDEFINED>();
        return;
    }
    const Node& k = n.kids[0];
    switch (k.width)
    {
    case 8:
        o.emplace<Tag::value8>(asInt<zserio::UInt8>(k));
        break;
    case 16:
        o.emplace<Tag::value16>(asInt<zserio::UInt16>(k));
        break;
    case 32:
        o.emplace<Tag::value32>(asInt<zserio::UInt32>(k));
        break;
    default:
        o.emplace<Tag::value64>(asInt<zserio::UInt64>(k));
        break;
    }
}
inline Node extract(const O::WalkerChoice& o)
{
    using Tag = O::WalkerChoice::Tag;
    switch (o.index())
    {
    case Tag::value8:
        return mkChoice("WalkerChoice", {named("value8", fromU(o.get<Tag::value8>(), 8))});
    case Tag::value16:
        return mkChoice("WalkerChoice", {named("value16", fromU(o.get<Tag::value16>(), 16))});
    case Tag::value32:
        return mkChoice("WalkerChoice", {named("value32", fromU(o.get<Tag::value32>(), 32))});
    case Tag::value64:
        return mkChoice("WalkerChoice", {named("value64", fromU(o.get<Tag::value64>(), 64))});
    default:
        return mkChoice("WalkerChoice", {});
    }
}
inline void build(const Node& n, O::WalkerObject& o)
{
    o.identifier = asInt<zserio::UInt32>(n.at("identifier"));
    o.nested.reset();
    if (n.at("nested").kind != Node::NUL)
    {
        o.nested.emplace();
        build(n.at("nested"), *o.nested);
    }
    setText(o.text, n.at("text").s);
    buildArr(n.at("unionArray"), o.unionArray, [](const Node& k, O::WalkerUnion& e) { build(k, e); });
    o.optionalUnionArray.reset();
    if (n.at("optionalUnionArray").kind != Node::NUL)
    {
        o.optionalUnionArray.emplace();
        buildArr(n.at("optionalUnionArray"), *o.optionalUnionArray, [](const Node& k, O::WalkerUnion& e) { build(k, e); });
    }
    o.choiceSelector = asInt<zserio::UInt8>(n.at("choiceSelector"));
    build(n.at("choiceField"), o.choiceField);
}
inline Node extract(const O::WalkerObject& o)
{
    std::vector<Node> k;
    k.push_back(named("identifier", fromU(o.identifier, 32)));
    k.push_back(named("nested", o.nested.has_value() ? extract(*o.nested) : mkNull()));
    k.back().noBit = true;
    k.push_back(named("text", fromText(o.text)));
    k.push_back(named("unionArray", extractArr(o.unionArray, [](const O::WalkerUnion& e) { return extract(e); })));
    k.push_back(named("optionalUnionArray",
            opt(o.optionalUnionArray.has_value()
                            ? extractArr(*o.optionalUnionArray, [](const O::WalkerUnion& e) { return extract(e); })
                            : mkNull())));
    k.push_back(named("choiceSelector", fromU(o.choiceSelector, 8)));
    k.push_back(named("choiceField", extract(o.choiceField)));
    return mkObj("WalkerObject", std::move(k));
}

inline void build(const Node& n, O::ReflectableNested& o)
{
    o.value = asInt<zserio::UInt31>(n.at("value"));
}
inline Node extract(const O::ReflectableNested& o)
{
    return mkObj("ReflectableNested", {named("value", fromU(o.value, 31))});
}
inline void build(const Node& n, O::ReflectableChoice& o)
{
    using Tag = O::ReflectableChoice::Tag;
    if (n.kids.empty())
    {
        o.emplace<Tag::ZSERIO_UNDEFINED>();
    }
    else if (n.kids[0].kind == Node::STR)
    {
        setText(o.emplace<Tag::valueStr>(), n.kids[0].s);
    }
    else
    {
        o.emplace<Tag::value32>(asInt<zserio::UInt32>(n.kids[0]));
    }
}
inline Node extract(const O::ReflectableChoice& o)
{
    using Tag = O::ReflectableChoice::Tag;
    switch (o.index())
    {
    case Tag::valueStr:
        return mkChoice("ReflectableChoice", {named("valueStr", fromText(o.get<Tag::valueStr>()))});
    case Tag::value32:
        return mkChoice("ReflectableChoice", {named("value32", fromU(o.get<Tag::value32>(), 32))});
    default:
        return mkChoice("ReflectableChoice", {});
    }
}
inline void build(const Node& n, O::ReflectableUnion& o)
{
    using Tag = O::ReflectableUnion::Tag;
    if (n.num == 0)
    {
        o.emplace<Tag::value32>(asInt<zserio::UInt32>(n.kids.at(0)));
    }
    else
    {
        setText(o.emplace<Tag::valueStr>(), n.kids.at(0).s);
    }
}
inline Node extract(const O::ReflectableUnion& o)
{
    using Tag = O::ReflectableUnion::Tag;
    switch (o.index())
    {
    case Tag::value32:
        return mkUnion("ReflectableUnion", 0, named("value32", fromU(o.get<Tag::value32>(), 32)));
    case Tag::valueStr:
        return mkUnion("ReflectableUnion", 1, named("valueStr", fromText(o.get<Tag::valueStr>())));
    default:
        return mkUnion("ReflectableUnion", -1, mkNull());
    }
}
inline void build(const Node& n, O::ReflectableObject& o)
{
    setText(o.stringField, n.at("stringField").s);
    build(n.at("reflectableNested"), o.reflectableNested);
    o.reflectableEnum = static_cast<O::ReflectableEnum>(static_cast<int8_t>(n.at("reflectableEnum").num));
    build(n.at("reflectableChoice"), o.reflectableChoice);
    build(n.at("reflectableUnion"), o.reflectableUnion);
}
inline Node extract(const O::ReflectableObject& o)
{
    return mkObj("ReflectableObject",
            {named("stringField", fromText(o.stringField)), named("reflectableNested", extract(o.reflectableNested)),
                    named("reflectableEnum", mkEnum("ReflectableEnum", static_cast<int8_t>(o.reflectableEnum), 8)),
                    named("reflectableChoice", extract(o.reflectableChoice)),
                    named("reflectableUnion", extract(o.reflectableUnion))});
}
inline void build(const Node& n, O::ReflectableUtilChoice& o)
{
    using Tag = O::ReflectableUtilChoice::Tag;
    if (n.kids.empty())
    {
        o.emplace<Tag::ZSERIO_UNDEFINED>();
    }
    else
    {
        buildArr(n.kids[0], o.emplace<Tag::array>(), [](const Node& k, zserio::UInt32& e) { e = asInt<zserio::UInt32>(k); });
    }
}
inline Node extract(const O::ReflectableUtilChoice& o)
{
    using Tag = O::ReflectableUtilChoice::Tag;
    if (o.index() == Tag::array)
    {
        return mkChoice("ReflectableUtilChoice",
                {named("array", extractArr(o.get<Tag::array>(), [](const zserio::UInt32& e) { return fromU(e, 32); }))});
    }
    return mkChoice("ReflectableUtilChoice", {});
}
inline void build(const Node& n, O::ReflectableUtilObject& o)
{
    o.choiceParam = asInt<zserio::UInt8>(n.at("choiceParam"));
    build(n.at("reflectableUtilChoice"), o.reflectableUtilChoice);
}
inline Node extract(const O::ReflectableUtilObject& o)
{
    return mkObj("ReflectableUtilObject",
            {named("choiceParam", fromU(o.choiceParam, 8)),
                    named("reflectableUtilChoice", extract(o.reflectableUtilChoice))});
}
inline void build(const Node& n, O::ReflectableUtilUnion& o)
{
    using Tag = O::ReflectableUtilUnion::Tag;
    const Node& k = n.kids.at(0);
    switch (static_cast<int>(n.num))
    {
    case 0:
        o.emplace<Tag::reflectableUtilEnum>(static_cast<O::ReflectableUtilEnum>(static_cast<int8_t>(k.num)));
        break;
    case 1:
        o.emplace<Tag::reflectableUtilBitmask>(
                O::ReflectableUtilBitmask(zserio::UInt8(static_cast<uint8_t>(k.num))));
        break;
    default:
        build(k, o.emplace<Tag::reflectableUtilObject>());
        break;
    }
}
inline Node extract(const O::ReflectableUtilUnion& o)
{
    using Tag = O::ReflectableUtilUnion::Tag;
    switch (o.index())
    {
    case Tag::reflectableUtilEnum:
        return mkUnion("ReflectableUtilUnion", 0,
                named("reflectableUtilEnum",
                        mkEnum("ReflectableUtilEnum", static_cast<int8_t>(o.get<Tag::reflectableUtilEnum>()), 8)));
    case Tag::reflectableUtilBitmask:
        return mkUnion("ReflectableUtilUnion", 1,
                named("reflectableUtilBitmask",
                        mkMask("ReflectableUtilBitmask",
                                static_cast<uint8_t>(
                                        static_cast<zserio::UInt8>(o.get<Tag::reflectableUtilBitmask>().getValue())),
                                8)));
    case Tag::reflectableUtilObject:
        return mkUnion("ReflectableUtilUnion", 2,
                named("reflectableUtilObject", extract(o.get<Tag::reflectableUtilObject>())));
    default:
        return mkUnion("ReflectableUtilUnion", -1, mkNull());
    }
}
inline void build(const Node& n, O::DebugStringObject& o)
{
    setText(o.text, n.at("text").s);
}
inline Node extract(const O::DebugStringObject& o)
{
    return mkObj("DebugStringObject", {named("text", fromText(o.text))});
}

inline void build(const Node& n, O::DebugStringParamObject& o)
{
    setText(o.text, n.at("text").s);
}
inline Node extract(const O::DebugStringParamObject& o)
{
    return mkObj("DebugStringParamObject", {named("text", fromText(o.text))});
}

// view arguments which fit a value tree
template <typename T>
std::tuple<> args(const Node&, T*)
{
    return {};
}
inline std::tuple<zserio::UInt32> args(const Node& n, O::CreatorNested*)
{
    return {zserio::UInt32(static_cast<uint32_t>(n.at("value").num))};
}
inline std::tuple<zserio::UInt8> args(const Node& n, O::WalkerChoice*)
{
    return {zserio::UInt8(static_cast<uint8_t>(n.kids.empty() ? 3 : n.kids[0].width))};
}
inline std::tuple<zserio::Int31, std::string_view> args(const Node&, O::ReflectableNested*)
{
    return {zserio::Int31(13), std::string_view("some string parameter")};
}
inline std::tuple<O::ReflectableEnum> args(const Node& n, O::ReflectableChoice*)
{
    return {n.kids.empty() ? O::ReflectableEnum::VALUE3
                           : (n.kids[0].name == "valueStr" ? O::ReflectableEnum::VALUE1 : O::ReflectableEnum::VALUE2)};
}
inline std::tuple<zserio::UInt8> args(const Node& n, O::ReflectableUtilChoice*)
{
    return {zserio::UInt8(n.kids.empty() ? 7 : 2)};
}
inline std::tuple<zserio::Int32> args(const Node&, O::DebugStringParamObject*)
{
    return {zserio::Int32(-10)};
}

// top level types with the way to generate them and the parameters of their views
template <typename F>
void forEachType(F&& f)
{
    f(static_cast<O::CreatorObject*>(nullptr), [](Gen& g) { return g.creatorObject(); });
    f(static_cast<O::WalkerObject*>(nullptr), [](Gen& g) { return g.walkerObject(); });
    f(static_cast<O::ReflectableObject*>(nullptr), [](Gen& g) { return g.reflectableObject(); });
    f(static_cast<O::ReflectableUtilUnion*>(nullptr), [](Gen& g) { return g.reflectableUtilUnion(); });
    f(static_cast<O::ReflectableUtilObject*>(nullptr), [](Gen& g) { return g.reflectableUtilObject(); });
    f(static_cast<O::WalkerUnion*>(nullptr), [](Gen& g) { return g.walkerUnion(); });
    f(static_cast<O::WalkerNested*>(nullptr), [](Gen& g) { return g.walkerNested(); });
    f(static_cast<O::ReflectableUnion*>(nullptr), [](Gen& g) { return g.reflectableUnion(); });
    f(static_cast<O::DebugStringObject*>(nullptr), [](Gen& g) { return g.debugStringObject(); });
}

// calls f with a type chosen by k
template <typename F>
void withType(uint64_t k, F&& f)
{
    uint64_t i = 0;
    const uint64_t want = k % 9;
    forEachType([&](auto* t, auto gen) {
        if (i++ == want)
        {
            f(t, gen);
        }
    });
}

// types which need parameters, same calling convention
template <typename F>
void forEachParamType(F&& f)
{
    f(static_cast<O::CreatorNested*>(nullptr), [](Gen& g) { return g.creatorNested(); });
    f(static_cast<O::WalkerChoice*>(nullptr), [](Gen& g) {
        static const unsigned sels[] = {8, 16, 32, 64, 0};
        return g.walkerChoice(sels[g.r.below(5)]);
    });
    f(static_cast<O::ReflectableNested*>(nullptr), [](Gen& g) { return g.reflectableNested(); });
    f(static_cast<O::ReflectableChoice*>(nullptr),
            [](Gen& g) { return g.reflectableChoice(static_cast<int>(g.r.below(3)) - 1); });
    f(static_cast<O::ReflectableUtilChoice*>(nullptr),
            [](Gen& g) { return g.reflectableUtilChoice(static_cast<unsigned>(g.r.below(3))); });
    f(static_cast<O::DebugStringParamObject*>(nullptr), [](Gen& g) {
        Node n = g.debugStringObject();
        n.type = "DebugStringParamObject";
        return n;
    });
}

constexpr uint64_t ALL_TYPES = 15;

// calls f with any type chosen by k, use args() for its view arguments
template <typename F>
void withAnyType(uint64_t k, F&& f)
{
    uint64_t i = 0;
    const uint64_t want = k % ALL_TYPES;
    const auto g = [&](auto* t, auto gen) {
        if (i++ == want)
        {
            f(t, gen);
        }
    };
    forEachType(g);
    forEachParamType(g);
}

} // namespace TOBJ_NS
} // namespace tobj
