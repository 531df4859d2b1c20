// C11: hostile data, an independent decoder of the generated types decides acceptance
#pragma once
#include <cstdio>
#include <fstream>

#include "c06.h"
#include "tobj.h"
#include "zserio/DataView.h"
#include "zserio/SerializeUtil.h"

namespace c11
{

using tobj::Node;
using ref::Bits;
using ref::Dec;

struct Reject
{
    const char* why;
};

struct Decoder
{
    const Bits& b;
    size_t pos = 0;

    uint64_t raw(unsigned w)
    {
        if (pos + w > b.size())
        {
            throw Reject{"end"};
        }
        const uint64_t v = b.get(pos, w);
        pos += w;
        return v;
    }
    size_t varsize()
    {
        ref::i128 v = 0;
        const Dec d = ref::getVar(b, pos, ref::Var::SIZE, v);
        if (d != Dec::OK)
        {
            throw Reject{d == Dec::EOS ? "end" : "varsize"};
        }
        return static_cast<size_t>(v);
    }
    std::string blob(size_t bits)
    {
        if (bits > b.size() - pos)
        {
            throw Reject{"blob"};
        }
        std::string s((bits + 7) / 8, '\0');
        for (size_t i = 0; i < bits; ++i)
        {
            s[i / 8] = static_cast<char>(s[i / 8] | (b.v[pos + i] << (7 - i % 8)));
        }
        pos += bits;
        return s;
    }
    Node u(unsigned w)
    {
        return tobj::mkInt(static_cast<ref::i128>(raw(w)), w, false);
    }
    Node str()
    {
        const size_t n = varsize();
        return tobj::mkStr(blob(n * 8));
    }
    Node bytes()
    {
        const size_t n = varsize();
        return tobj::mkBytes(blob(n * 8));
    }
    Node bits()
    {
        const size_t n = varsize();
        return tobj::mkBits(blob(n), n);
    }
    template <typename F>
    Node arr(F&& f)
    {
        const size_t n = varsize();
        std::vector<Node> k;
        for (size_t i = 0; i < n; ++i)
        {
            k.push_back(f());
        }
        return tobj::mkArr(std::move(k));
    }
    template <typename F>
    Node maybe(F&& f)
    {
        return tobj::opt(raw(1) != 0 ? f() : tobj::mkNull());
    }
    Node en(const char* type, std::initializer_list<int> vals)
    {
        const int v = static_cast<int8_t>(static_cast<uint8_t>(raw(8)));
        for (int x : vals)
        {
            if (x == v)
            {
                return tobj::mkEnum(type, v, 8);
            }
        }
        throw Reject{"enum"};
    }
    Node mask(const char* type)
    {
        return tobj::mkMask(type, static_cast<ref::i128>(raw(8)), 8);
    }

    Node creatorNested()
    {
        std::vector<Node> k;
        k.push_back(named("value", u(32)));
        k.push_back(named("text", str()));
        k.push_back(named("externData", bits()));
        k.push_back(named("bytesData", bytes()));
        k.push_back(named("creatorEnum", en("CreatorEnum", {0, 1, -1})));
        k.push_back(named("creatorBitmask", mask("CreatorBitmask")));
        return tobj::mkObj("CreatorNested", std::move(k));
    }
    Node creatorObject()
    {
        std::vector<Node> k;
        k.push_back(named("value", u(32)));
        k.push_back(named("nested", creatorNested()));
        k.push_back(named("text", str()));
        k.push_back(named("nestedArray", arr([&]() { return creatorNested(); })));
        k.push_back(named("textArray", arr([&]() { return str(); })));
        k.push_back(named("externArray", maybe([&]() { return arr([&]() { return bits(); }); })));
        k.push_back(named("bytesArray", maybe([&]() { return arr([&]() { return bytes(); }); })));
        k.push_back(named("optionalBool", maybe([&]() { return tobj::mkBool(raw(1) != 0); })));
        k.push_back(named("optionalNested", maybe([&]() { return creatorNested(); })));
        return tobj::mkObj("CreatorObject", std::move(k));
    }
    Node walkerNested()
    {
        return tobj::mkObj("WalkerNested", {named("text", str())});
    }
    Node walkerUnion()
    {
        switch (varsize())
        {
        case 0:
            return tobj::mkUnion("WalkerUnion", 0, named("value", u(32)));
        case 1:
            return tobj::mkUnion("WalkerUnion", 1, named("text", str()));
        case 2:
            return tobj::mkUnion("WalkerUnion", 2, named("nestedArray", arr([&]() { return walkerNested(); })));
        default:
            throw Reject{"union"};
        }
    }
    Node walkerChoice(unsigned sel)
    {
        switch (sel)
        {
        case 8:
            return tobj::mkChoice("WalkerChoice", {named("value8", u(8))});
        case 16:
            return tobj::mkChoice("WalkerChoice", {named("value16", u(16))});
        case 32:
            return tobj::mkChoice("WalkerChoice", {named("value32", u(32))});
        case 64:
            return tobj::mkChoice("WalkerChoice", {named("value64", u(64))});
        default:
            return tobj::mkChoice("WalkerChoice", {});
        }
    }
    Node walkerObject()
    {
        std::vector<Node> k;
        k.push_back(named("identifier", u(32)));
        k.push_back(named("nested", k[0].num != 0 ? walkerNested() : tobj::mkNull()));
        k.back().noBit = true;
        k.push_back(named("text", str()));
        k.push_back(named("unionArray", arr([&]() { return walkerUnion(); })));
        k.push_back(named("optionalUnionArray", maybe([&]() { return arr([&]() { return walkerUnion(); }); })));
        k.push_back(named("choiceSelector", u(8)));
        const auto sel = static_cast<unsigned>(k.back().num);
        k.push_back(named("choiceField", walkerChoice(sel)));
        return tobj::mkObj("WalkerObject", std::move(k));
    }
    Node reflectableNested()
    {
        return tobj::mkObj("ReflectableNested", {named("value", u(31))});
    }
    Node reflectableChoice(int e)
    {
        if (e == -1)
        {
            return tobj::mkChoice("ReflectableChoice", {named("valueStr", str())});
        }
        if (e == 0)
        {
            return tobj::mkChoice("ReflectableChoice", {named("value32", u(32))});
        }
        return tobj::mkChoice("ReflectableChoice", {});
    }
    Node reflectableUnion()
    {
        switch (varsize())
        {
        case 0:
            return tobj::mkUnion("ReflectableUnion", 0, named("value32", u(32)));
        case 1:
            return tobj::mkUnion("ReflectableUnion", 1, named("valueStr", str()));
        default:
            throw Reject{"union"};
        }
    }
    Node reflectableObject()
    {
        std::vector<Node> k;
        k.push_back(named("stringField", str()));
        k.push_back(named("reflectableNested", reflectableNested()));
        k.push_back(named("reflectableEnum", en("ReflectableEnum", {-1, 0, 1})));
        const int e = static_cast<int>(k.back().num);
        k.push_back(named("reflectableChoice", reflectableChoice(e)));
        k.push_back(named("reflectableUnion", reflectableUnion()));
        return tobj::mkObj("ReflectableObject", std::move(k));
    }
    Node reflectableUtilChoice(unsigned p)
    {
        if (p == 1 || p == 2)
        {
            return tobj::mkChoice("ReflectableUtilChoice", {named("array", arr([&]() { return u(32); }))});
        }
        return tobj::mkChoice("ReflectableUtilChoice", {});
    }
    Node reflectableUtilObject()
    {
        std::vector<Node> k;
        k.push_back(named("choiceParam", u(8)));
        const auto p = static_cast<unsigned>(k.back().num);
        k.push_back(named("reflectableUtilChoice", reflectableUtilChoice(p)));
        return tobj::mkObj("ReflectableUtilObject", std::move(k));
    }
    Node reflectableUtilUnion()
    {
        switch (varsize())
        {
        case 0:
            return tobj::mkUnion(
                    "ReflectableUtilUnion", 0, named("reflectableUtilEnum", en("ReflectableUtilEnum", {0, 1})));
        case 1:
            return tobj::mkUnion(
                    "ReflectableUtilUnion", 1, named("reflectableUtilBitmask", mask("ReflectableUtilBitmask")));
        case 2:
            return tobj::mkUnion("ReflectableUtilUnion", 2, named("reflectableUtilObject", reflectableUtilObject()));
        default:
            throw Reject{"union"};
        }
    }
    Node debugString(const char* type)
    {
        return tobj::mkObj(type, {named("text", str())});
    }
    // types in the order of tobj::withAnyType; param is the selector of parameterised choices
    Node any(uint64_t type, int param)
    {
        switch (type % 15)
        {
        case 0:
            return creatorObject();
        case 1:
            return walkerObject();
        case 2:
            return reflectableObject();
        case 3:
            return reflectableUtilUnion();
        case 4:
            return reflectableUtilObject();
        case 5:
            return walkerUnion();
        case 6:
            return walkerNested();
        case 7:
            return reflectableUnion();
        case 8:
            return debugString("DebugStringObject");
        case 9:
            return creatorNested();
        case 10:
            return walkerChoice(static_cast<unsigned>(param));
        case 11:
            return reflectableNested();
        case 12:
            return reflectableChoice(param);
        case 13:
            return reflectableUtilChoice(static_cast<unsigned>(param));
        default:
            return debugString("DebugStringParamObject");
        }
    }
};

struct Input
{
    Bits bits; // what the object is decoded from (starting at start)
    size_t start = 0;
    int param = 0;
    size_t prealloc = 0;
};

// mutates an encoding on bit level
inline void mutate(vh::Rng& r, Bits& b, size_t from)
{
    const size_t n = 1 + r.below(3);
    for (size_t i = 0; i < n; ++i)
    {
        const size_t len = b.size() - from;
        const size_t at = from + (len == 0 ? 0 : r.below(len));
        switch (r.below(8))
        {
        case 0: // flip
            if (len != 0)
            {
                b.v[at] ^= 1;
            }
            break;
        case 1: // cut
            b.v.resize(at);
            break;
        case 2: // run of ones or zeros
            for (size_t k = at; k < b.size() && k < at + 40; ++k)
            {
                b.v[k] = r.below(8) != 0 ? 1 : 0;
            }
            break;
        case 3: // forged varsize
        {
            Bits f;
            static const uint64_t vals[] = {0x7FFFFFFF, 0x7FFFFFFE, 0x40000000, 0x1FFFFFFF, 0x10000000, 0xFFFFFF, 0xFFFF, 4096, 300, 127, 3, 0x80000000ULL, 0xFFFFFFFFULL};
            const uint64_t v = r.pick(vals);
            if (v > 0x7FFFFFFF)
            {
                f.put(0xFFFFFFFFFFULL - r.below(2), 40);
            }
            else
            {
                unsigned nb = ref::varBytes(ref::Var::SIZE, static_cast<ref::i128>(v));
                nb += static_cast<unsigned>(r.below(6 - nb)); // longer than needed is legal
                ref::putVar(f, ref::Var::SIZE, static_cast<ref::i128>(v), nb);
            }
            for (size_t k = 0; k < f.size() && at + k < b.size(); ++k)
            {
                b.v[at + k] = f.v[k];
            }
            break;
        }
        case 4: // remove bits
        {
            const size_t k = std::min<size_t>(b.size() - at, 1 + r.below(16));
            b.v.erase(b.v.begin() + static_cast<std::ptrdiff_t>(at), b.v.begin() + static_cast<std::ptrdiff_t>(at + k));
            break;
        }
        case 5: // insert bits
        {
            std::vector<uint8_t> k(1 + r.below(16));
            for (auto& x : k)
            {
                x = static_cast<uint8_t>(r.below(2));
            }
            b.v.insert(b.v.begin() + static_cast<std::ptrdiff_t>(at), k.begin(), k.end());
            break;
        }
        case 6: // append
        {
            const size_t k = r.below(60);
            for (size_t j = 0; j < k; ++j)
            {
                b.put(r.below(2), 1);
            }
            break;
        }
        default: // a byte
            for (size_t k = at; k < b.size() && k < at + 8; ++k)
            {
                b.v[k] = static_cast<uint8_t>(r.below(2));
            }
            break;
        }
    }
}

inline Bits randomBits(vh::Rng& r, size_t n)
{
    Bits b;
    const unsigned mode = static_cast<unsigned>(r.below(4));
    for (size_t i = 0; i < n; ++i)
    {
        b.put(mode == 0 ? r.below(2) : (mode == 1 ? (r.below(6) == 0) : (mode == 2 ? (r.below(6) != 0) : (r.below(3) == 0))), 1);
    }
    return b;
}

void run_std(vh::Case& c, uint64_t type, const Input& in, const Node* want, size_t end);
void run_ppmr(vh::Case& c, uint64_t type, const Input& in, const Node* want, size_t end);

} // namespace c11
