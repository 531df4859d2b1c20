// JSON of objects: shared by the parts compiled for each allocator.
#pragma once
#include <clocale>
#include <cstdio>
#include <fstream>
#include <locale>
#include <sstream>

#include "jsonref.h"
#include "tobj.h"
#include "zserio/DebugStringUtil.h"

namespace c16
{

using jref::J;

void node_std(vh::Case& c, uint64_t type, const tobj::Node& n);
void node_pmr(vh::Case& c, uint64_t type, const tobj::Node& n);
void node_ppmr(vh::Case& c, uint64_t type, const tobj::Node& n);
void all_std(vh::Case& c, unsigned percent);
void all_ppmr(vh::Case& c, unsigned percent);

inline std::vector<std::pair<std::string, int64_t>> items(const std::string& type)
{
    static const std::map<std::string, std::vector<std::pair<std::string, int64_t>>> m = {
            {"CreatorEnum", {{"ONE", 0}, {"TWO", 1}, {"MinusOne", -1}}},
            {"ReflectableEnum", {{"VALUE1", -1}, {"VALUE2", 0}, {"VALUE3", 1}}},
            {"ReflectableUtilEnum", {{"ONE", 0}, {"TWO", 1}}}, {"CreatorBitmask", {{"READ", 1}, {"WRITE", 2}}},
            {"ReflectableBitmask", {{"CREATE", 1}, {"READ", 2}, {"WRITE", 4}}},
            {"ReflectableUtilBitmask", {{"READ", 1}, {"WRITE", 2}}}};
    return m.at(type);
}
inline std::string maskText(uint64_t v, const std::vector<std::pair<std::string, int64_t>>& names)
{
    std::string s;
    uint64_t seen = 0;
    for (const auto& n : names)
    {
        const auto m = static_cast<uint64_t>(n.second);
        if (m == 0 ? v == 0 : (v & m) == m)
        {
            s += (s.empty() ? "" : " | ") + n.first;
            seen |= m;
        }
    }
    if (s.empty())
    {
        return vh::str(v, " /* no match */");
    }
    return seen == v ? s : vh::str(v, " /* partial match: ", s, " */");
}

inline J bytesJ(const std::string& s)
{
    J a = jref::jarr();
    for (const char ch : s)
    {
        a.kids.push_back(jref::jint(static_cast<uint8_t>(ch)));
    }
    J o = jref::jobj();
    add(o, "buffer", std::move(a));
    return o;
}

// the JSON value which describes a value tree; arrays are cut to maxLen elements
inline J toJ(const tobj::Node& n, bool numbers, size_t maxLen = static_cast<size_t>(-1))
{
    using tobj::Node;
    switch (n.kind)
    {
    case Node::NUL:
        return jref::jnull();
    case Node::BOOL:
        return jref::jbool(n.num != 0);
    case Node::INT:
        return jref::jint(n.num);
    case Node::STR:
        return jref::jstr(n.s);
    case Node::BYTES:
        return bytesJ(n.s);
    case Node::BITS:
    {
        J o = bytesJ(n.s);
        add(o, "bitSize", jref::jint(static_cast<ref::i128>(n.bitSize)));
        return o;
    }
    case Node::ENUM:
        if (!numbers)
        {
            for (const auto& i : items(n.type))
            {
                if (i.second == n.num)
                {
                    return jref::jstr(i.first);
                }
            }
            throw std::logic_error("harness: unnamed enum value");
        }
        return jref::jint(n.num);
    case Node::MASK:
        return numbers ? jref::jint(n.num) : jref::jstr(maskText(static_cast<uint64_t>(n.num), items(n.type)));
    case Node::ARR:
    {
        J a = jref::jarr();
        for (size_t i = 0; i < n.kids.size() && i < maxLen; ++i)
        {
            a.kids.push_back(toJ(n.kids[i], numbers, maxLen));
        }
        return a;
    }
    default:
    {
        J o = jref::jobj();
        for (const Node& k : n.kids)
        {
            add(o, k.name, toJ(k, numbers, maxLen));
        }
        return o;
    }
    }
}

// how the writer is set up
struct Setup
{
    jref::Layout layout;
    int ctor = 0; // no indent, number, string
    uint8_t spaces = 0;
    bool itemSep = false;
    bool keySep = false;
    bool numbers = false;
    int stream = 0; // plain, flags, locale

    std::string text() const
    {
        return vh::str("ctor ", ctor, " indent '", vh::hex(layout.indent.data(), layout.indent.size()), "' item '",
                layout.item, "' key '", layout.key, "' numbers ", numbers, " stream ", stream);
    }
};
inline std::string whites(vh::Rng& r, size_t maxLen)
{
    std::string s;
    const size_t n = r.below(maxLen + 1);
    for (size_t i = 0; i < n; ++i)
    {
        s += " \t\n\r"[r.below(4)];
    }
    return s;
}
inline Setup randomSetup(vh::Rng& r)
{
    Setup s;
    s.ctor = static_cast<int>(r.below(3));
    if (s.ctor != 0)
    {
        s.layout.indented = true;
        s.layout.item = ",";
        if (s.ctor == 1)
        {
            static const uint8_t sizes[] = {0, 1, 2, 4, 8, 0, 3, 255};
            s.spaces = sizes[r.below(r.chance(5) ? 8 : 7)];
            s.layout.indent = std::string(s.spaces, ' ');
        }
        else
        {
            s.layout.indent = whites(r, 5);
        }
    }
    if (r.chance(30))
    {
        s.itemSep = true;
        s.layout.item = whites(r, 3) + "," + whites(r, 3);
    }
    if (r.chance(30))
    {
        s.keySep = true;
        s.layout.key = whites(r, 3) + ":" + whites(r, 3);
    }
    s.numbers = r.flip();
    s.stream = static_cast<int>(r.below(4));
    return s;
}

struct OddPunct : std::numpunct<char>
{
    char do_decimal_point() const override
    {
        return ',';
    }
    char do_thousands_sep() const override
    {
        return '.';
    }
    std::string do_grouping() const override
    {
        return "\2\1";
    }
    std::string do_truename() const override
    {
        return "wahr";
    }
    std::string do_falsename() const override
    {
        return "falsch";
    }
};

// streams configured by their owner in ways which must not matter
inline void configure(std::ios& s, int kind, vh::Rng& r)
{
    if (kind == 1)
    {
        s.setf(r.flip() ? std::ios::hex : std::ios::oct, std::ios::basefield);
        s.setf(std::ios::showbase | std::ios::showpos | std::ios::uppercase | std::ios::showpoint);
        s.setf(r.flip() ? std::ios::scientific : std::ios::fixed, std::ios::floatfield);
        s.precision(static_cast<std::streamsize>(r.below(4)));
        s.fill('*');
        s.width(static_cast<std::streamsize>(r.below(30)));
    }
    else if (kind == 2)
    {
        s.imbue(std::locale(std::locale::classic(), new OddPunct));
    }
}

// the locale of the process, as set by an application
struct Locale
{
    explicit Locale(int kind) :
            kind(kind)
    {
        if (kind == 1)
        {
            old = std::locale::global(std::locale(std::locale::classic(), new OddPunct));
        }
        else if (kind == 2)
        {
            cLocale();
        }
    }
    ~Locale()
    {
        if (kind == 1)
        {
            std::locale::global(old);
        }
        else if (kind == 2)
        {
            (void)setlocale(LC_NUMERIC, "C");
        }
    }
    // builds a locale with a decimal comma by localedef; returns false if it is not possible here
    static bool cLocale()
    {
        static const int state = make();
        if (state == 0)
        {
            return false;
        }
        const std::string dir = vh::scratchDir() + "/locale";
        (void)setenv("LOCPATH", dir.c_str(), 1);
        return setlocale(LC_NUMERIC, "xx_XX") != nullptr;
    }
    static int make()
    {
        const std::string dir = vh::scratchDir() + "/locale";
        std::string cmd = "mkdir -p " + dir + " && cd " + dir +
                " && { printf '%s\\n' '<code_set_name> ANSI_X3.4-1968' '<comment_char> %' '<escape_char> /' CHARMAP; "
                "i=0; while [ $i -lt 128 ]; do printf '<U%04X> /x%02x X\\n' $i $i; i=$((i+1)); done; "
                "printf '%s\\n' 'END CHARMAP'; } > cm && "
                "printf '%s\\n' 'comment_char %' 'escape_char /' LC_NUMERIC 'decimal_point \",\"' 'thousands_sep \".\"' "
                "'grouping 3;3' 'END LC_NUMERIC' > src && localedef -c -i ./src -f ./cm ./xx_XX >/dev/null 2>&1; "
                "test -f xx_XX/LC_NUMERIC";
        return system(cmd.c_str()) == 0 ? 1 : 0;
    }
    int kind;
    std::locale old;
};

inline std::string s_(const char* p, size_t n)
{
    return std::string(p, n);
}
template <typename S>
std::string toStd(const S& s)
{
    return std::string(s.data(), s.size());
}

} // namespace c16
