// Reference JSON: value trees, a strict RFC 8259 parser (plus NaN and infinities, which the runtime writes for floats),
// an exact text writer, and the event parser of the accepted language used to judge the runtime's JSON input.
#pragma once
#include <locale.h>

#include <cmath>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

#include "ref.h"
#include "vh.h"

namespace jref
{

using ref::i128;

// whatever locale a check sets
inline double cStrtod(const char* s, char** end)
{
    static const locale_t c = newlocale(LC_ALL_MASK, "C", static_cast<locale_t>(nullptr));
    return strtod_l(s, end, c);
}

inline std::string i128str(i128 v)
{
    if (v == 0)
    {
        return "0";
    }
    const bool neg = v < 0;
    unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
    std::string s;
    while (u != 0)
    {
        s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
        u /= 10;
    }
    return neg ? "-" + s : s;
}

struct J
{
    enum Kind
    {
        NUL,
        BOOL,
        INT,
        DBL,
        STR,
        ARR,
        OBJ
    };
    Kind kind = NUL;
    i128 i = 0;
    double d = 0;
    std::string s; // string values
    std::vector<J> kids;
    std::vector<std::string> keys; // of kids when it is an object

    // a text may give an integral floating point value without fraction: JSON has one kind of number
    bool operator==(const J& o) const
    {
        if (kind == INT && o.kind == DBL)
        {
            return std::fabs(o.d) < 1e37 && std::trunc(o.d) == o.d && static_cast<i128>(o.d) == i &&
                    (i != 0 || !std::signbit(o.d));
        }
        if (kind != o.kind || i != o.i || s != o.s || keys != o.keys || kids != o.kids)
        {
            return false;
        }
        return kind != DBL || (std::isnan(d) && std::isnan(o.d)) || (d == o.d && std::signbit(d) == std::signbit(o.d));
    }
    bool operator!=(const J& o) const
    {
        return !(*this == o);
    }
};
inline J jnull()
{
    return J();
}
inline J jbool(bool b)
{
    J j;
    j.kind = J::BOOL;
    j.i = b ? 1 : 0;
    return j;
}
inline J jint(i128 v)
{
    J j;
    j.kind = J::INT;
    j.i = v;
    return j;
}
inline J jdbl(double v)
{
    J j;
    j.kind = J::DBL;
    j.d = v;
    return j;
}
inline J jstr(std::string v)
{
    J j;
    j.kind = J::STR;
    j.s = std::move(v);
    return j;
}
inline J jarr()
{
    J j;
    j.kind = J::ARR;
    return j;
}
inline J jobj()
{
    J j;
    j.kind = J::OBJ;
    return j;
}
inline void add(J& o, std::string key, J v)
{
    o.keys.push_back(std::move(key));
    o.kids.push_back(std::move(v));
}

// strict parser --------------------------------------------------------------------------------------------
class Strict
{
public:
    explicit Strict(const std::string& text) :
            t(text)
    {}
    // returns an empty string or what is wrong
    std::string parse(J& out)
    {
        ws();
        if (!value(out, 0))
        {
            return vh::str(err, " at ", pos);
        }
        ws();
        return pos == t.size() ? std::string() : vh::str("trailing text at ", pos);
    }

private:
    bool bad(const char* what)
    {
        err = what;
        return false;
    }
    void ws()
    {
        while (pos < t.size() && (t[pos] == ' ' || t[pos] == '\t' || t[pos] == '\n' || t[pos] == '\r'))
        {
            ++pos;
        }
    }
    bool lit(const char* s)
    {
        const size_t n = strlen(s);
        if (t.compare(pos, n, s) == 0)
        {
            pos += n;
            return true;
        }
        return false;
    }
    bool value(J& out, int depth)
    {
        if (depth > 1000)
        {
            return bad("too deep");
        }
        if (pos >= t.size())
        {
            return bad("end of text");
        }
        switch (t[pos])
        {
        case '{':
            out = jobj();
            ++pos;
            ws();
            if (pos < t.size() && t[pos] == '}')
            {
                ++pos;
                return true;
            }
            for (;;)
            {
                ws();
                std::string key;
                if (!string(key))
                {
                    return false;
                }
                ws();
                if (pos >= t.size() || t[pos] != ':')
                {
                    return bad("no colon");
                }
                ++pos;
                ws();
                J v;
                if (!value(v, depth + 1))
                {
                    return false;
                }
                add(out, key, std::move(v));
                ws();
                if (pos < t.size() && t[pos] == ',')
                {
                    ++pos;
                    continue;
                }
                if (pos < t.size() && t[pos] == '}')
                {
                    ++pos;
                    return true;
                }
                return bad("object not closed");
            }
        case '[':
            out = jarr();
            ++pos;
            ws();
            if (pos < t.size() && t[pos] == ']')
            {
                ++pos;
                return true;
            }
            for (;;)
            {
                ws();
                J v;
                if (!value(v, depth + 1))
                {
                    return false;
                }
                out.kids.push_back(std::move(v));
                ws();
                if (pos < t.size() && t[pos] == ',')
                {
                    ++pos;
                    continue;
                }
                if (pos < t.size() && t[pos] == ']')
                {
                    ++pos;
                    return true;
                }
                return bad("array not closed");
            }
        case '"':
            out = jstr("");
            return string(out.s);
        case 'n':
            out = jnull();
            return lit("null") || bad("literal");
        case 't':
            out = jbool(true);
            return lit("true") || bad("literal");
        case 'f':
            out = jbool(false);
            return lit("false") || bad("literal");
        case 'N':
            out = jdbl(NAN);
            return lit("NaN") || bad("literal");
        case 'I':
            out = jdbl(INFINITY);
            return lit("Infinity") || bad("literal");
        default:
            if (t.compare(pos, 9, "-Infinity") == 0)
            {
                pos += 9;
                out = jdbl(-INFINITY);
                return true;
            }
            return number(out);
        }
    }
    bool digit() const
    {
        return pos < t.size() && t[pos] >= '0' && t[pos] <= '9';
    }
    bool number(J& out)
    {
        const size_t b = pos;
        if (t[pos] == '-')
        {
            ++pos;
        }
        if (!digit())
        {
            return bad("unexpected character");
        }
        if (t[pos] == '0')
        {
            ++pos;
        }
        else
        {
            while (digit())
            {
                ++pos;
            }
        }
        bool dbl = false;
        if (pos < t.size() && t[pos] == '.')
        {
            dbl = true;
            ++pos;
            if (!digit())
            {
                return bad("fraction");
            }
            while (digit())
            {
                ++pos;
            }
        }
        if (pos < t.size() && (t[pos] == 'e' || t[pos] == 'E'))
        {
            dbl = true;
            ++pos;
            if (pos < t.size() && (t[pos] == '+' || t[pos] == '-'))
            {
                ++pos;
            }
            if (!digit())
            {
                return bad("exponent");
            }
            while (digit())
            {
                ++pos;
            }
        }
        const std::string s = t.substr(b, pos - b);
        if (dbl)
        {
            out = jdbl(cStrtod(s.c_str(), nullptr));
            return true;
        }
        if (s.size() > 25)
        {
            return bad("integer too long");
        }
        i128 v = 0;
        for (char ch : s)
        {
            if (ch != '-')
            {
                v = v * 10 + (ch - '0');
            }
        }
        out = jint(s[0] == '-' ? -v : v);
        return true;
    }
    bool string(std::string& out)
    {
        if (pos >= t.size() || t[pos] != '"')
        {
            return bad("string expected");
        }
        ++pos;
        while (pos < t.size())
        {
            const char ch = t[pos];
            if (ch == '"')
            {
                ++pos;
                return true;
            }
            if (static_cast<unsigned char>(ch) < 0x20)
            {
                return bad("control character in string");
            }
            if (ch != '\\')
            {
                out += ch;
                ++pos;
                continue;
            }
            if (++pos >= t.size())
            {
                return bad("escape");
            }
            const char e = t[pos++];
            static const char from[] = "\"\\/bfnrt";
            static const char to[] = "\"\\/\b\f\n\r\t";
            if (e == 'u')
            {
                if (pos + 4 > t.size())
                {
                    return bad("unicode escape");
                }
                unsigned v = 0;
                for (int k = 0; k < 4; ++k)
                {
                    const char h = t[pos++];
                    if (!isxdigit(static_cast<unsigned char>(h)))
                    {
                        return bad("unicode escape");
                    }
                    v = v * 16 + static_cast<unsigned>(h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
                }
                if (v >= 0x80)
                {
                    return bad("unicode escape of non-ASCII"); // the runtime never writes any
                }
                out += static_cast<char>(v);
                continue;
            }
            const char* p = strchr(from, e);
            if (p == nullptr || e == 0)
            {
                return bad("unknown escape");
            }
            out += to[p - from];
        }
        return bad("string not closed");
    }

    const std::string& t;
    size_t pos = 0;
    const char* err = "";
};

// exact text ------------------------------------------------------------------------------------------------
struct Layout
{
    bool indented = false;
    std::string indent;
    std::string item = ", ";
    std::string key = ": ";
};
inline std::string quote(const std::string& s)
{
    std::string o = "\"";
    for (char c : s)
    {
        static const char from[] = "\"\\\b\f\n\r\t";
        static const char to[] = "\"\\bfnrt";
        const char* p = c == 0 ? nullptr : strchr(from, c);
        if (p != nullptr)
        {
            o += '\\';
            o += to[p - from];
        }
        else if (static_cast<unsigned char>(c) < 0x20)
        {
            o += vh::str("\\u00", "0123456789abcdef"[static_cast<unsigned char>(c) >> 4],
                    "0123456789abcdef"[static_cast<unsigned char>(c) & 15]);
        }
        else
        {
            o += c;
        }
    }
    return o + "\"";
}
inline void format(const J& j, const Layout& l, std::string& out, size_t level = 0)
{
    const auto nl = [&](size_t lv) {
        if (l.indented)
        {
            out += '\n';
            for (size_t k = 0; k < lv; ++k)
            {
                out += l.indent;
            }
        }
    };
    switch (j.kind)
    {
    case J::NUL:
        out += "null";
        break;
    case J::BOOL:
        out += j.i != 0 ? "true" : "false";
        break;
    case J::INT:
        out += i128str(j.i);
        break;
    case J::DBL:
        throw std::logic_error("harness: no doubles here");
    case J::STR:
        out += quote(j.s);
        break;
    default:
        out += j.kind == J::OBJ ? '{' : '[';
        for (size_t k = 0; k < j.kids.size(); ++k)
        {
            if (k != 0)
            {
                out += l.item;
            }
            nl(level + 1);
            if (j.kind == J::OBJ)
            {
                out += quote(j.keys[k]) + l.key;
            }
            format(j.kids[k], l, out, level + 1);
        }
        nl(level);
        out += j.kind == J::OBJ ? '}' : ']';
        break;
    }
}

// events of the accepted language ------------------------------------------------------------------------------
struct Ev
{
    char kind = 0; // { } [ ] k(ey) n(ull) b(ool) i(nt64) u(int64) d(ouble) s(tring)
    uint64_t u = 0; // integers, bits of doubles
    std::string s;
    bool operator==(const Ev& o) const
    {
        return kind == o.kind && u == o.u && s == o.s;
    }
    std::string text() const
    {
        std::string t(1, kind);
        if (kind == 'k' || kind == 's')
        {
            return t + "'" + vh::hex(s.data(), s.size(), 20) + "'";
        }
        return kind == 'i' || kind == 'u' || kind == 'b' || kind == 'd' ? vh::str(t, u) : t;
    }
};
inline uint64_t dblBits(double d)
{
    uint64_t u = 0;
    if (std::isnan(d))
    {
        return 0x7FF8000000000000ULL;
    }
    memcpy(&u, &d, 8);
    return u;
}

struct Tok
{
    enum Kind
    {
        END,
        BAD,
        VALUE,
        PUNCT
    };
    Kind kind = END;
    char punct = 0;
    Ev value; // when it is a value
    bool overflow = false; // integer out of range
    size_t begin = 0;
    size_t end = 0;
    size_t line = 1;
    size_t col = 1;
};

// decodes the value at pos: VALUE or BAD, end is set for values
inline Tok valueToken(const std::string& t, size_t pos)
{
    Tok k;
    k.kind = Tok::BAD;
    k.begin = pos;
    static const struct
    {
        const char* text;
        char kind;
        uint64_t u;
    } lits[] = {{"null", 'n', 0}, {"true", 'b', 1}, {"false", 'b', 0}, {"NaN", 'd', 0x7FF8000000000000ULL},
            {"Infinity", 'd', 0x7FF0000000000000ULL}, {"-Infinity", 'd', 0xFFF0000000000000ULL}};
    for (const auto& l : lits)
    {
        if (t.compare(pos, strlen(l.text), l.text) == 0)
        {
            k.kind = Tok::VALUE;
            k.value.kind = l.kind;
            k.value.u = l.u;
            k.end = pos + strlen(l.text);
            return k;
        }
    }
    if (t[pos] == '"')
    {
        k.value.kind = 's';
        size_t p = pos + 1;
        while (p < t.size())
        {
            const char c = t[p];
            if (c == '"')
            {
                k.kind = Tok::VALUE;
                k.end = p + 1;
                return k;
            }
            if (c != '\\')
            {
                k.value.s += c;
                ++p;
                continue;
            }
            if (++p >= t.size())
            {
                return k;
            }
            const char e = t[p++];
            static const char from[] = "\"\\bfnrt";
            static const char to[] = "\"\\\b\f\n\r\t";
            if (e == 'u')
            {
                if (p + 4 > t.size() || t[p] != '0' || t[p + 1] != '0' || !isxdigit(static_cast<unsigned char>(t[p + 2])) ||
                        !isxdigit(static_cast<unsigned char>(t[p + 3])))
                {
                    return k;
                }
                k.value.s += static_cast<char>(strtol(t.substr(p + 2, 2).c_str(), nullptr, 16));
                p += 4;
                continue;
            }
            const char* f = e == 0 ? nullptr : strchr(from, e);
            if (f == nullptr)
            {
                return k;
            }
            k.value.s += to[f - from];
        }
        return k;
    }
    // number: longest text of the form -?digits*(.digits*)?([eE][+-]?digits*)?
    size_t p = pos;
    const bool neg = t[p] == '-';
    const auto digits = [&]() {
        while (p < t.size() && t[p] >= '0' && t[p] <= '9')
        {
            ++p;
        }
    };
    if (neg)
    {
        ++p;
    }
    digits();
    bool dbl = false;
    if (p < t.size() && t[p] == '.')
    {
        dbl = true;
        ++p;
        digits();
    }
    if (p < t.size() && (t[p] == 'e' || t[p] == 'E'))
    {
        dbl = true;
        ++p;
        if (p < t.size() && (t[p] == '+' || t[p] == '-'))
        {
            ++p;
        }
        digits();
    }
    if (p == pos || (neg && p == pos + 1))
    {
        return k;
    }
    const std::string s = t.substr(pos, p - pos);
    k.end = p;
    if (dbl)
    {
        char* e = nullptr;
        const double d = cStrtod(s.c_str(), &e);
        if (e != s.c_str() + s.size())
        {
            return k;
        }
        k.kind = Tok::VALUE;
        k.value.kind = 'd';
        k.value.u = dblBits(d);
        return k;
    }
    unsigned __int128 v = 0;
    for (size_t q = neg ? 1 : 0; q < s.size(); ++q)
    {
        v = v * 10 + static_cast<unsigned>(s[q] - '0');
        if (v > (static_cast<unsigned __int128>(1) << 65))
        {
            k.overflow = true;
            return k;
        }
    }
    if (v > (neg ? static_cast<unsigned __int128>(1) << 63 : static_cast<unsigned __int128>(UINT64_MAX)))
    {
        k.overflow = true;
        return k;
    }
    k.kind = Tok::VALUE;
    k.value.kind = neg ? 'i' : 'u';
    k.value.u = neg ? uint64_t(0) - static_cast<uint64_t>(v) : static_cast<uint64_t>(v);
    return k;
}

class Scanner
{
public:
    explicit Scanner(const std::string& text) :
            t(text)
    {}
    Tok next()
    {
        while (pos < t.size())
        {
            const char c = t[pos];
            if (c == ' ' || c == '\t')
            {
                ++pos;
                ++col;
            }
            else if (c == '\n')
            {
                ++pos;
                ++line;
                col = 1;
            }
            else if (c == '\r')
            {
                pos += pos + 1 < t.size() && t[pos + 1] == '\n' ? 2 : 1;
                ++line;
                col = 1;
            }
            else
            {
                break;
            }
        }
        Tok k;
        if (pos < t.size())
        {
            if (strchr("{}[]:,", t[pos]) != nullptr && t[pos] != 0)
            {
                k.kind = Tok::PUNCT;
                k.punct = t[pos];
                k.begin = pos;
                k.end = pos + 1;
            }
            else
            {
                k = valueToken(t, pos);
            }
        }
        k.line = line;
        k.col = col;
        if (k.kind == Tok::PUNCT || k.kind == Tok::VALUE)
        {
            col += k.end - pos;
            pos = k.end;
        }
        return k;
    }

private:
    const std::string& t;
    size_t pos = 0;
    size_t line = 1;
    size_t col = 1;
};

struct Doc // one top level element
{
    bool ok = false;
    std::vector<Ev> events; // up to the error
};
struct Parsed
{
    std::vector<Doc> docs; // the last one may be in error
    bool tokenError = false; // the error is an undecodable token
};
inline Parsed parseAll(const std::string& text)
{
    Parsed out;
    Scanner sc(text);
    Tok k = sc.next();
    while (k.kind != Tok::END)
    {
        out.docs.emplace_back();
        Doc& d = out.docs.back();
        std::string nest; // of { [
        bool wantValue = true; // otherwise a separator or an end
        bool first = false; // just opened
        bool failed = false;
        for (;;)
        {
            if (k.kind == Tok::BAD)
            {
                out.tokenError = true;
                failed = true;
                break;
            }
            if (wantValue)
            {
                if (first && k.kind == Tok::PUNCT && k.punct == (nest.back() == '{' ? '}' : ']'))
                {
                    d.events.push_back(Ev{k.punct, 0, ""});
                    nest.pop_back();
                    wantValue = false;
                    first = false;
                    if (nest.empty())
                    {
                        break;
                    }
                    k = sc.next();
                    continue;
                }
                first = false;
                if (!nest.empty() && nest.back() == '{')
                {
                    if (k.kind != Tok::VALUE || k.value.kind != 's')
                    {
                        failed = true;
                        break;
                    }
                    Ev e = k.value;
                    e.kind = 'k';
                    d.events.push_back(e);
                    k = sc.next();
                    if (k.kind == Tok::BAD)
                    {
                        continue;
                    }
                    if (k.kind != Tok::PUNCT || k.punct != ':')
                    {
                        failed = true;
                        break;
                    }
                    k = sc.next();
                    if (k.kind == Tok::BAD)
                    {
                        continue;
                    }
                }
                if (k.kind == Tok::VALUE)
                {
                    d.events.push_back(k.value);
                    wantValue = false;
                    if (nest.empty())
                    {
                        break;
                    }
                }
                else if (k.kind == Tok::PUNCT && (k.punct == '{' || k.punct == '['))
                {
                    d.events.push_back(Ev{k.punct, 0, ""});
                    nest += k.punct;
                    first = true;
                }
                else
                {
                    failed = true;
                    break;
                }
                k = sc.next();
                continue;
            }
            if (k.kind == Tok::PUNCT && k.punct == ',')
            {
                wantValue = true;
                k = sc.next();
                continue;
            }
            if (k.kind == Tok::PUNCT && k.punct == (nest.back() == '{' ? '}' : ']'))
            {
                d.events.push_back(Ev{k.punct, 0, ""});
                nest.pop_back();
                if (nest.empty())
                {
                    break;
                }
                k = sc.next();
                continue;
            }
            failed = true;
            break;
        }
        if (failed)
        {
            return out;
        }
        d.ok = true;
        k = sc.next();
    }
    return out;
}

// random documents -----------------------------------------------------------------------------------------------
struct Gen
{
    vh::Rng& r;
    bool lenient; // also forms which strict JSON does not have

    std::string ws()
    {
        static const char* w[] = {"", "", "", " ", "  ", "\t", "\n", "\r\n", "\r", "\n\n", " \n ", "\r\r", " \t\r\n"};
        return w[r.below(sizeof w / sizeof *w)];
    }
    std::string number()
    {
        std::string s;
        switch (r.below(lenient ? 9 : 6))
        {
        case 0:
            return i128str(static_cast<i128>(r.ubits(64)));
        case 1:
            return i128str(static_cast<i128>(r.sbits(64)));
        case 2:
            return i128str(static_cast<i128>(r.below(300)));
        case 3:
        {
            static const char* b[] = {"0", "-0", "18446744073709551615", "9223372036854775807", "9223372036854775808",
                    "-9223372036854775808", "1e308", "-1.7976931348623157e308", "5e-324", "2.2250738585072014E-308", "0.1",
                    "1E+2", "1e-2", "-0.0", "123456789012345678.5", "4294967296", "-2147483649"};
            return b[r.below(sizeof b / sizeof *b)];
        }
        case 4:
        {
            char buf[64];
            double d = 0;
            const uint64_t u = r.next();
            memcpy(&d, &u, 8);
            if (std::isfinite(d))
            {
                snprintf(buf, sizeof buf, "%.*e", static_cast<int>(r.below(20)), d);
                return buf;
            }
            return "1.5";
        }
        case 5:
            return vh::str(r.flip() ? "-" : "", r.below(1000), ".", r.below(100000), r.chance(30) ? "e5" : "");
        case 6:
        {
            static const char* b[] = {"18446744073709551616", "-9223372036854775809", "99999999999999999999999", "1e999", "-1e999",
                    "1e-999", "00", "007", "-01", "1.", ".5", "-.5", "1.e3", ".e3", ".", "1e", "1e+", "-", "--1", "+1", "1e5.5",
                    "1..2", "1e5e5", "-e", "1.5.5", "NaN", "Infinity", "-Infinity", "-Inf", "nan", "Infinit", "0x10", "1_0"};
            return b[r.below(sizeof b / sizeof *b)];
        }
        default:
            s = r.flip() ? "-" : "";
            for (size_t n = r.below(24); n > 0; --n)
            {
                s += "0123456789.eE+-"[r.below(r.chance(80) ? 10 : 15)];
            }
            return s.empty() ? "7" : s;
        }
    }
    std::string string()
    {
        std::string s = "\"";
        const size_t n = r.chance(5) ? 200 + r.below(300) : r.below(12);
        for (size_t k = 0; k < n; ++k)
        {
            switch (r.below(12))
            {
            case 0:
            {
                static const char* e[] = {"\\\"", "\\\\", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0000", "\\u001f", "\\u007F", "\\u0041"};
                s += e[r.below(sizeof e / sizeof *e)];
                break;
            }
            case 1:
                if (lenient)
                {
                    static const char* e[] = {"\\/", "\\x", "\\u1234", "\\u00G0", "\\u0", "\\", "\\u00", "\n", "\r", "\t", "\\'", "\\u01ff",
                            "\\U0041", "\\u00a9", "\\u00FF"};
                    s += e[r.below(sizeof e / sizeof *e)];
                }
                break;
            case 2:
                s += static_cast<char>(0x80 + r.below(0x80));
                break;
            case 3:
                s += "{}[]:,/'"[r.below(8)];
                break;
            default:
            {
                const char c = static_cast<char>(0x20 + r.below(0x5F));
                if (c != '"' && c != '\\')
                {
                    s += c;
                }
                break;
            }
            }
        }
        return s + "\"";
    }
    std::string value(int depth)
    {
        switch (r.below(depth <= 0 ? 6 : 9))
        {
        case 0:
        {
            static const char* l[] = {"null", "true", "false", "NaN", "Infinity", "-Infinity"};
            static const char* b[] = {"nul", "True", "fals", "nulll", "truefalse", "null1", "tru e", "N", "I", "-I", "falsE", "nULL"};
            return lenient && r.chance(8) ? b[r.below(sizeof b / sizeof *b)] : l[r.below(6)];
        }
        case 1:
        case 2:
            return string();
        case 3:
        case 4:
        case 5:
            return number();
        case 6:
        case 7:
        {
            std::string s = "{" + ws();
            const size_t n = r.below(5);
            for (size_t k = 0; k < n; ++k)
            {
                s += (k != 0 ? "," : "") + ws() + string() + ws() + ":" + ws() + value(depth - 1) + ws();
            }
            return s + "}";
        }
        default:
        {
            std::string s = "[" + ws();
            const size_t n = r.chance(10) ? r.below(40) : r.below(5);
            for (size_t k = 0; k < n; ++k)
            {
                s += (k != 0 ? "," : "") + ws() + value(depth - 1) + ws();
            }
            return s + "]";
        }
        }
    }
    std::string text()
    {
        std::string s = ws();
        const size_t n = r.chance(80) ? 1 : r.below(4);
        for (size_t k = 0; k < n; ++k)
        {
            s += value(static_cast<int>(r.below(6)));
            const std::string w = ws();
            s += w.empty() && k + 1 < n ? "\n" : w;
        }
        return s;
    }
};

inline std::string mutate(vh::Rng& r, std::string s)
{
    static const char alphabet[] = "{}[]:,\"\\/ \t\r\nntfNI-+.eE0123456789u";
    const auto rc = [&]() { return r.chance(85) ? alphabet[r.below(sizeof alphabet - 1)] : static_cast<char>(r.below(256)); };
    for (size_t n = 1 + r.below(3); n > 0; --n)
    {
        const size_t p = s.empty() ? 0 : r.below(s.size());
        switch (s.empty() ? 1 : r.below(7))
        {
        case 0:
            s[p] = rc();
            break;
        case 1:
            s.insert(s.begin() + static_cast<std::ptrdiff_t>(p), rc());
            break;
        case 2:
            s.erase(p, 1 + r.below(3));
            break;
        case 3:
            s.resize(p);
            break;
        case 4:
            s.insert(p, s.substr(r.below(s.size()), 1 + r.below(12)));
            break;
        case 5:
            s.erase(p, 1 + r.below(20));
            break;
        default:
        {
            const size_t q = r.below(s.size());
            std::swap(s[p], s[q]);
            break;
        }
        }
    }
    return s;
}

} // namespace jref
