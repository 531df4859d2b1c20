// Allocator independent value trees for the generated test objects: generation, reference encoding, comparison.
#pragma once
#include <algorithm>

#include "ops.h"

namespace tobj
{

using ref::Bits;
using ref::i128;

struct Node
{
    enum Kind
    {
        NUL,
        INT,
        BOOL,
        STR,
        BYTES,
        BITS,
        ENUM,
        MASK,
        OBJ,
        CHOICE,
        UNION,
        ARR
    };
    Kind kind = NUL;
    std::string name; // field name in the parent
    std::string type; // schema type name of enums, bitmasks and compounds
    i128 num = 0; // integers; index of the selected union field
    unsigned width = 0;
    bool sign = false;
    bool optBit = false; // field has a presence bit
    bool noBit = false; // field is present or absent by a condition
    std::string s; // text, bytes, bit buffer bytes
    size_t bitSize = 0;
    std::vector<Node> kids;

    bool operator==(const Node& o) const
    {
        return kind == o.kind && name == o.name && type == o.type && num == o.num && width == o.width && s == o.s &&
                bitSize == o.bitSize && kids == o.kids;
    }
    bool operator!=(const Node& o) const
    {
        return !(*this == o);
    }
    const Node* field(std::string_view n) const
    {
        for (const Node& k : kids)
        {
            if (k.name == n)
            {
                return &k;
            }
        }
        return nullptr;
    }
    Node* field(std::string_view n)
    {
        return const_cast<Node*>(static_cast<const Node*>(this)->field(n));
    }
    const Node& at(std::string_view n) const
    {
        const Node* p = field(n);
        if (p == nullptr)
        {
            throw std::logic_error("harness: no field " + std::string(n) + " in " + type);
        }
        return *p;
    }
    uint64_t hash() const
    {
        uint64_t h = vh::hashStr(s, vh::hashStr(name, static_cast<uint64_t>(kind) + 77));
        h = vh::mix(h, static_cast<uint64_t>(num));
        h = vh::mix(h, bitSize);
        for (const Node& k : kids)
        {
            h = vh::mix(h, k.hash());
        }
        return h;
    }
    std::string text(size_t budget = 600) const
    {
        std::string t;
        append(t, budget);
        return t;
    }
    void append(std::string& t, size_t budget) const
    {
        if (t.size() > budget)
        {
            return;
        }
        if (!name.empty())
        {
            t += name + "=";
        }
        switch (kind)
        {
        case NUL:
            t += "null";
            break;
        case INT:
        case BOOL:
        case ENUM:
        case MASK:
            t += vh::str(kind == ENUM ? "e" : (kind == MASK ? "m" : (kind == BOOL ? "b" : "")), num < 0 ? "-" : "",
                    static_cast<uint64_t>(num < 0 ? -num : num));
            break;
        case STR:
            t += "'" + vh::hex(s.data(), s.size(), 12) + "'";
            break;
        case BYTES:
            t += "x" + vh::hex(s.data(), s.size(), 12);
            break;
        case BITS:
            t += vh::str("bits", bitSize, ":", vh::hex(s.data(), s.size(), 12));
            break;
        default:
            t += kind == ARR ? "[" : "{";
            for (const Node& k : kids)
            {
                k.append(t, budget);
                t += " ";
            }
            t += kind == ARR ? "]" : "}";
            break;
        }
    }
};

inline Node named(std::string n, Node v)
{
    v.name = std::move(n);
    return v;
}
inline Node mkNull()
{
    return Node();
}
inline Node mkInt(i128 v, unsigned width, bool sign)
{
    Node n;
    n.kind = Node::INT;
    n.num = v;
    n.width = width;
    n.sign = sign;
    return n;
}
inline Node mkBool(bool v)
{
    Node n;
    n.kind = Node::BOOL;
    n.num = v ? 1 : 0;
    n.width = 1;
    return n;
}
inline Node mkStr(std::string_view v)
{
    Node n;
    n.kind = Node::STR;
    n.s = std::string(v);
    return n;
}
inline Node mkBytes(std::string_view v)
{
    Node n;
    n.kind = Node::BYTES;
    n.s = std::string(v);
    return n;
}
inline Node mkBits(std::string v, size_t bits)
{
    Node n;
    n.kind = Node::BITS;
    n.s = ops::maskBlob(std::move(v), bits);
    n.bitSize = bits;
    return n;
}
inline Node mkEnum(std::string type, i128 v, unsigned width)
{
    Node n;
    n.kind = Node::ENUM;
    n.type = std::move(type);
    n.num = v;
    n.width = width;
    return n;
}
inline Node mkMask(std::string type, i128 v, unsigned width)
{
    Node n;
    n.kind = Node::MASK;
    n.type = std::move(type);
    n.num = v;
    n.width = width;
    return n;
}
inline Node mkObj(std::string type, std::vector<Node> kids)
{
    Node n;
    n.kind = Node::OBJ;
    n.type = std::move(type);
    n.kids = std::move(kids);
    return n;
}
inline Node mkChoice(std::string type, std::vector<Node> kids)
{
    Node n;
    n.kind = Node::CHOICE;
    n.type = std::move(type);
    n.kids = std::move(kids);
    return n;
}
inline Node mkUnion(std::string type, i128 idx, Node v)
{
    Node n;
    n.kind = Node::UNION;
    n.type = std::move(type);
    n.num = idx;
    n.kids.push_back(std::move(v));
    return n;
}
inline Node mkArr(std::vector<Node> kids)
{
    Node n;
    n.kind = Node::ARR;
    n.kids = std::move(kids);
    return n;
}
inline Node opt(Node v)
{
    v.optBit = true;
    return v;
}

inline void encode(const Node& n, Bits& b)
{
    if (n.optBit)
    {
        b.put(n.kind == Node::NUL ? 0 : 1, 1);
    }
    switch (n.kind)
    {
    case Node::NUL:
        break;
    case Node::INT:
    case Node::BOOL:
    case Node::ENUM:
    case Node::MASK:
        ref::putInt(b, n.num, n.width);
        break;
    case Node::STR:
    case Node::BYTES:
        ref::putBlob(b, n.s);
        break;
    case Node::BITS:
        ref::putBitBuffer(b, Bits::fromBytes(reinterpret_cast<const uint8_t*>(n.s.data()), n.bitSize));
        break;
    case Node::UNION:
        ref::putVar(b, ref::Var::SIZE, n.num);
        encode(n.kids.at(0), b);
        break;
    case Node::ARR:
        ref::putVar(b, ref::Var::SIZE, static_cast<i128>(n.kids.size()));
        for (const Node& k : n.kids)
        {
            encode(k, b);
        }
        break;
    default:
        for (const Node& k : n.kids)
        {
            encode(k, b);
        }
        break;
    }
}

inline std::vector<uint8_t> encodeBytes(const Node& n)
{
    Bits b;
    encode(n, b);
    return b.toBytes();
}

// generation -------------------------------------------------------------------------------------------------
struct Gen
{
    enum Text
    {
        ANY, // arbitrary bytes
        UTF8, // valid UTF-8 of all planes, control characters included
        UTF8_NONUL
    };
    Gen(vh::Rng& r, Text text, size_t maxArr = 6, size_t maxText = 30) :
            r(r),
            text(text),
            maxArr(maxArr),
            maxText(maxText)
    {}
    vh::Rng& r;
    Text text;
    size_t maxArr;
    size_t maxText;

    static void putUtf8(std::string& s, uint32_t cp)
    {
        if (cp < 0x80)
        {
            s += static_cast<char>(cp);
        }
        else if (cp < 0x800)
        {
            s += static_cast<char>(0xC0 | (cp >> 6));
            s += static_cast<char>(0x80 | (cp & 63));
        }
        else if (cp < 0x10000)
        {
            s += static_cast<char>(0xE0 | (cp >> 12));
            s += static_cast<char>(0x80 | ((cp >> 6) & 63));
            s += static_cast<char>(0x80 | (cp & 63));
        }
        else
        {
            s += static_cast<char>(0xF0 | (cp >> 18));
            s += static_cast<char>(0x80 | ((cp >> 12) & 63));
            s += static_cast<char>(0x80 | ((cp >> 6) & 63));
            s += static_cast<char>(0x80 | (cp & 63));
        }
    }

    std::string str()
    {
        const size_t n = r.chance(8) ? maxText * 5 + r.below(20) : r.below(maxText);
        std::string s;
        if (text == ANY && r.chance(60))
        {
            return r.bytes(n);
        }
        for (size_t i = 0; i < n; ++i)
        {
            uint32_t cp = 0;
            switch (r.below(8))
            {
            case 0:
                cp = static_cast<uint32_t>(r.below(0x20));
                break;
            case 1:
            {
                static const char sp[] = "\"\\/{}[]:,\b\f\n\r\t\x7f'";
                cp = static_cast<uint8_t>(sp[r.below(sizeof sp - 1)]);
                break;
            }
            case 2:
                cp = 0x80 + static_cast<uint32_t>(r.below(0x780));
                break;
            case 3:
                cp = 0x800 + static_cast<uint32_t>(r.below(0xD000));
                break;
            case 4:
                cp = 0x10000 + static_cast<uint32_t>(r.below(0x100000));
                break;
            default:
                cp = 0x20 + static_cast<uint32_t>(r.below(0x5F));
                break;
            }
            if (cp == 0 && text == UTF8_NONUL)
            {
                cp = 1;
            }
            putUtf8(s, cp);
        }
        return s;
    }
    Node strNode()
    {
        return mkStr(str());
    }
    Node u(unsigned w)
    {
        return mkInt(static_cast<i128>(r.ubits(w)), w, false);
    }
    Node i(unsigned w)
    {
        return mkInt(static_cast<i128>(r.sbits(w)), w, true);
    }
    Node bytes()
    {
        return mkBytes(ops::randomBlob(r, maxText));
    }
    Node bits()
    {
        std::string s = ops::randomBlob(r, maxText);
        size_t n = s.size() * 8;
        if (n != 0)
        {
            n -= r.below(8);
        }
        return mkBits(s, n);
    }
    template <typename F>
    Node arr(F&& f)
    {
        const size_t n = r.chance(5) ? 126 + r.below(4) : r.below(maxArr + 1);
        const size_t m = maxArr < 6 ? std::min(n, maxArr) : n;
        std::vector<Node> k;
        for (size_t j = 0; j < m; ++j)
        {
            k.push_back(f());
        }
        return mkArr(std::move(k));
    }
    Node en(const char* type, std::initializer_list<int> vals)
    {
        return mkEnum(type, *(vals.begin() + r.below(vals.size())), 8);
    }
    Node mask(const char* type, unsigned named, unsigned width)
    {
        return mkMask(type, static_cast<i128>(r.below(uint64_t(1) << named)), width);
    }

    Node creatorNested()
    {
        return mkObj("CreatorNested",
                {named("value", u(32)), named("text", strNode()), named("externData", bits()),
                        named("bytesData", bytes()), named("creatorEnum", en("CreatorEnum", {0, 1, -1})),
                        named("creatorBitmask", mask("CreatorBitmask", 2, 8))});
    }
    template <typename F>
    Node maybe(F&& f)
    {
        return opt(r.flip() ? f() : mkNull());
    }
    Node creatorObject()
    {
        const size_t save = maxArr;
        std::vector<Node> k;
        k.push_back(named("value", u(32)));
        k.push_back(named("nested", creatorNested()));
        k.push_back(named("text", strNode()));
        maxArr = std::min<size_t>(save, 5);
        k.push_back(named("nestedArray", arr([&]() { return creatorNested(); })));
        maxArr = save;
        k.push_back(named("textArray", arr([&]() { return strNode(); })));
        k.push_back(named("externArray", maybe([&]() { return arr([&]() { return bits(); }); })));
        k.push_back(named("bytesArray", maybe([&]() { return arr([&]() { return bytes(); }); })));
        k.push_back(named("optionalBool", maybe([&]() { return mkBool(r.flip()); })));
        k.push_back(named("optionalNested", maybe([&]() { return creatorNested(); })));
        return mkObj("CreatorObject", std::move(k));
    }
    Node walkerNested()
    {
        return mkObj("WalkerNested", {named("text", strNode())});
    }
    Node walkerUnion()
    {
        switch (r.below(3))
        {
        case 0:
            return mkUnion("WalkerUnion", 0, named("value", u(32)));
        case 1:
            return mkUnion("WalkerUnion", 1, named("text", strNode()));
        default:
        {
            const size_t save = maxArr;
            maxArr = std::min<size_t>(save, 4);
            Node n = mkUnion("WalkerUnion", 2, named("nestedArray", arr([&]() { return walkerNested(); })));
            maxArr = save;
            return n;
        }
        }
    }
    Node walkerChoice(unsigned sel)
    {
        switch (sel)
        {
        case 8:
            return mkChoice("WalkerChoice", {named("value8", u(8))});
        case 16:
            return mkChoice("WalkerChoice", {named("value16", u(16))});
        case 32:
            return mkChoice("WalkerChoice", {named("value32", u(32))});
        case 64:
            return mkChoice("WalkerChoice", {named("value64", u(64))});
        default:
            return mkChoice("WalkerChoice", {});
        }
    }
    Node walkerObject()
    {
        std::vector<Node> k;
        const bool id = r.chance(70);
        k.push_back(named("identifier", id ? u(32) : mkInt(0, 32, false)));
        if (k[0].num != 0)
        {
            k.push_back(named("nested", walkerNested()));
        }
        else
        {
            k.push_back(named("nested", mkNull()));
        }
        k.back().noBit = true;
        k.push_back(named("text", strNode()));
        k.push_back(named("unionArray", arr([&]() { return walkerUnion(); })));
        k.push_back(named("optionalUnionArray", maybe([&]() { return arr([&]() { return walkerUnion(); }); })));
        static const unsigned sels[] = {8, 16, 32, 64, 0, 1, 255, 9};
        const unsigned sel = sels[r.below(r.chance(80) ? 4 : 8)];
        k.push_back(named("choiceSelector", mkInt(sel, 8, false)));
        k.push_back(named("choiceField", walkerChoice(sel)));
        return mkObj("WalkerObject", std::move(k));
    }
    Node reflectableNested()
    {
        return mkObj("ReflectableNested", {named("value", u(31))});
    }
    Node reflectableChoice(i128 e)
    {
        if (e == -1)
        {
            return mkChoice("ReflectableChoice", {named("valueStr", strNode())});
        }
        if (e == 0)
        {
            return mkChoice("ReflectableChoice", {named("value32", u(32))});
        }
        return mkChoice("ReflectableChoice", {});
    }
    Node reflectableUnion()
    {
        if (r.flip())
        {
            return mkUnion("ReflectableUnion", 0, named("value32", u(32)));
        }
        return mkUnion("ReflectableUnion", 1, named("valueStr", strNode()));
    }
    Node reflectableObject()
    {
        const Node e = en("ReflectableEnum", {-1, 0, 1});
        return mkObj("ReflectableObject",
                {named("stringField", strNode()), named("reflectableNested", reflectableNested()),
                        named("reflectableEnum", e), named("reflectableChoice", reflectableChoice(e.num)),
                        named("reflectableUnion", reflectableUnion())});
    }
    Node reflectableUtilChoice(unsigned p)
    {
        if (p == 1 || p == 2)
        {
            return mkChoice("ReflectableUtilChoice", {named("array", arr([&]() { return u(32); }))});
        }
        return mkChoice("ReflectableUtilChoice", {});
    }
    Node reflectableUtilObject()
    {
        const unsigned p = static_cast<unsigned>(r.chance(85) ? 1 + r.below(2) : r.below(256));
        return mkObj("ReflectableUtilObject",
                {named("choiceParam", mkInt(p, 8, false)), named("reflectableUtilChoice", reflectableUtilChoice(p))});
    }
    Node reflectableUtilUnion()
    {
        switch (r.below(3))
        {
        case 0:
            return mkUnion("ReflectableUtilUnion", 0, named("reflectableUtilEnum", en("ReflectableUtilEnum", {0, 1})));
        case 1:
            return mkUnion("ReflectableUtilUnion", 1,
                    named("reflectableUtilBitmask", mask("ReflectableUtilBitmask", 2, 8)));
        default:
            return mkUnion("ReflectableUtilUnion", 2, named("reflectableUtilObject", reflectableUtilObject()));
        }
    }
    Node debugStringObject()
    {
        return mkObj("DebugStringObject", {named("text", strNode())});
    }
};

// first difference between two trees
inline std::string diff(const Node& a, const Node& b, const std::string& path = "")
{
    if (a == b)
    {
        return "";
    }
    const std::string p = path + "/" + a.name;
    if (a.kind != b.kind || a.name != b.name || a.kids.size() != b.kids.size() || a.type != b.type)
    {
        return p + ": got " + a.text(200) + " expected " + b.text(200);
    }
    for (size_t i = 0; i < a.kids.size(); ++i)
    {
        const std::string d = diff(a.kids[i], b.kids[i], a.kind == Node::ARR ? p + vh::str("[", i, "]") : p);
        if (!d.empty())
        {
            return d;
        }
    }
    return p + ": got " + a.text(200) + " expected " + b.text(200);
}

} // namespace tobj
