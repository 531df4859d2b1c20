// C17: JSON text of any shape is parsed faithfully or refused
#include <memory>
#include <sstream>

#include "jsonref.h"
#include "tobj_std.h"
#include "zserio/DebugStringUtil.h"
#include "zserio/JsonParser.h"
#include "zserio/JsonReader.h"
#include "zserio/pmr/Any.h"

using jref::Ev;
using jref::Tok;

namespace
{

constexpr size_t CHUNK = 64 * 1024;

template <typename ALLOC>
struct Recorder : zserio::BasicJsonParser<ALLOC>::IObserver
{
    std::vector<Ev> events;
    void add(char kind, uint64_t u = 0, std::string_view s = {})
    {
        events.push_back(Ev{kind, u, std::string(s)});
    }
    void beginObject() override
    {
        add('{');
    }
    void endObject() override
    {
        add('}');
    }
    void beginArray() override
    {
        add('[');
    }
    void endArray() override
    {
        add(']');
    }
    void visitKey(std::string_view key) override
    {
        add('k', 0, key);
    }
    void visitValue(std::nullptr_t) override
    {
        add('n');
    }
    void visitValue(bool v) override
    {
        add('b', v ? 1 : 0);
    }
    void visitValue(int64_t v) override
    {
        add('i', static_cast<uint64_t>(v));
    }
    void visitValue(uint64_t v) override
    {
        add('u', v);
    }
    void visitValue(double v) override
    {
        add('d', jref::dblBits(v));
    }
    void visitValue(std::string_view v) override
    {
        add('s', 0, v);
    }
};

std::string show(const std::vector<Ev>& ev, size_t around)
{
    std::string s;
    for (size_t k = around > 2 ? around - 2 : 0; k < ev.size() && k < around + 3; ++k)
    {
        s += ev[k].text() + " ";
    }
    return s;
}

// one run of the parser over the text, compared with the reference
template <typename ALLOC>
void runParser(vh::Case& c, const std::string& text, const jref::Parsed& want, const ALLOC& alloc, const std::string& how)
{
    std::istringstream is(text);
    Recorder<ALLOC> rec;
    zserio::BasicJsonParser<ALLOC> parser(is, rec, alloc);
    for (size_t d = 0; d <= want.docs.size(); ++d)
    {
        const bool more = d < want.docs.size();
        const bool wantOk = more && want.docs[d].ok;
        // the element after a complete one is already looked at
        const bool nextUndecodable = more && d + 2 == want.docs.size() && want.tokenError && want.docs[d + 1].events.empty();
        rec.events.clear();
        bool thrown = false;
        bool atEnd = false;
        std::string msg;
        try
        {
            atEnd = parser.parse();
        }
        catch (const zserio::JsonParserException& e)
        {
            thrown = true;
            msg = e.what();
        }
        c.eval();
        if (!more)
        {
            c.check(!thrown && atEnd && rec.events.empty(), "parse-at-end", how);
            break;
        }
        const std::vector<Ev>& ev = want.docs[d].events;
        const size_t n = std::min(ev.size(), rec.events.size());
        size_t k = 0;
        while (k < n && ev[k] == rec.events[k])
        {
            ++k;
        }
        if (k < rec.events.size() || (!thrown && k < ev.size()))
        {
            c.fail("events", vh::str(how, ", event ", k, ": got ", show(rec.events, k), " expected ", show(ev, k)));
        }
        if (nextUndecodable && wantOk && thrown)
        {
            c.count("error_after_element");
            break;
        }
        if (thrown == wantOk)
        {
            c.fail(wantOk ? "valid-text-rejected" : "invalid-text-accepted", vh::str(how, " ", msg));
        }
        if (thrown)
        {
            c.check(msg.compare(0, 4, "Json") == 0, "error-message", msg);
            c.count(want.tokenError ? "undecodable" : "ungrammatical");
            // asked again, the parser stays well defined and does not run forever
            for (int again = 0; again < 3; ++again)
            {
                const size_t before = rec.events.size();
                try
                {
                    (void)parser.parse();
                }
                catch (const zserio::JsonParserException&)
                {}
                c.check(rec.events.size() <= before + 2 * text.size() + 2, "events-after-error", "");
            }
            break;
        }
        VH_EQ(c, atEnd, d + 1 == want.docs.size(), "parse-result", how);
        c.count("accepted");
        c.count("events", rec.events.size());
    }
}

void runTokenizer(vh::Case& c, const std::string& text, const std::string& how)
{
    std::istringstream is(text);
    zserio::BasicJsonTokenizer<std::allocator<uint8_t>> tokenizer(is, std::allocator<uint8_t>());
    jref::Scanner sc(text);
    VH_CHECK(c, tokenizer.getToken() == (text.empty() ? zserio::JsonToken::END_OF_FILE : zserio::JsonToken::BEGIN_OF_FILE),
            "first-token", how);
    for (size_t n = 0;; ++n)
    {
        const Tok want = sc.next();
        bool thrown = false;
        zserio::JsonToken got = zserio::JsonToken::UNKNOWN;
        std::string msg;
        try
        {
            got = tokenizer.next();
        }
        catch (const zserio::JsonParserException& e)
        {
            thrown = true;
            msg = e.what();
        }
        VH_EQ(c, thrown, want.kind == Tok::BAD, "token-acceptance", how, ", token ", n, " at ", want.begin, " ", msg);
        if (thrown)
        {
            VH_EQ(c, msg.find("64-bit integer") != std::string::npos, want.overflow, "overflow-message", msg);
            c.count("tokens_refused");
            bool again = false;
            try
            {
                (void)tokenizer.next();
            }
            catch (const zserio::JsonParserException&)
            {
                again = true;
            }
            c.check(again, "second-next-accepted", how);
            return;
        }
        VH_CHECK(c, got == tokenizer.getToken(), "getToken", how);
        if (want.kind == Tok::END)
        {
            VH_CHECK(c, got == zserio::JsonToken::END_OF_FILE && tokenizer.next() == zserio::JsonToken::END_OF_FILE, "end-token",
                    how, ", token ", n);
            return;
        }
        VH_CHECK(c, tokenizer.getLine() == want.line && tokenizer.getColumn() == want.col, "position", how, ", token ", n, " got ",
                tokenizer.getLine(), ":", tokenizer.getColumn(), " expected ", want.line, ":", want.col);
        if (want.kind == Tok::PUNCT)
        {
            using T = zserio::JsonToken;
            static const T tokens[] = {T::BEGIN_OBJECT, T::END_OBJECT, T::BEGIN_ARRAY, T::END_ARRAY, T::KEY_SEPARATOR, T::ITEM_SEPARATOR};
            VH_CHECK(c, got == tokens[strchr("{}[]:,", want.punct) - "{}[]:,"], "punctuation", how, ", token ", n);
        }
        else
        {
            VH_CHECK(c, got == zserio::JsonToken::VALUE, "value-token", how, ", token ", n);
            const auto& v = tokenizer.getValue();
            Ev e;
            if (v.isType<std::nullptr_t>())
            {
                e.kind = 'n';
            }
            else if (v.isType<bool>())
            {
                e.kind = 'b';
                e.u = v.get<bool>() ? 1 : 0;
            }
            else if (v.isType<int64_t>())
            {
                e.kind = 'i';
                e.u = static_cast<uint64_t>(v.get<int64_t>());
            }
            else if (v.isType<uint64_t>())
            {
                e.kind = 'u';
                e.u = v.get<uint64_t>();
            }
            else if (v.isType<double>())
            {
                e.kind = 'd';
                e.u = jref::dblBits(v.get<double>());
            }
            else
            {
                e.kind = 's';
                e.s = v.get<std::string>();
            }
            VH_CHECK(c, e == want.value, "token-value", how, ", token ", n, " got ", e.text(), " expected ", want.value.text());
        }
        c.count("tokens");
    }
}

// puts the text so that one of its bytes is the first one of a chunk
std::string pad(vh::Rng& r, const std::string& text, size_t at, std::string& how)
{
    const size_t chunks = r.chance(90) ? 1 : 2;
    const size_t n = chunks * CHUNK - at;
    how = vh::str("chunk ends before byte ", at);
    switch (r.below(4))
    {
    case 0:
        return std::string(n, ' ') + text;
    case 1:
    {
        std::string p;
        p.reserve(n);
        while (p.size() < n)
        {
            p += " \t\n\r"[r.below(4)];
        }
        return p + text;
    }
    case 2: // a long string as the first element
        return "\"" + std::string(n - 3, static_cast<char>('a' + r.below(26))) + "\" " + text;
    default: // an array of many numbers as the first element
    {
        std::string p = "[";
        while (p.size() + 12 < n)
        {
            p += vh::str(r.below(100000), ",");
        }
        p += "1]";
        p += std::string(n - p.size(), r.flip() ? '\n' : ' ');
        return p + text;
    }
    }
}

void parserCase(vh::Case& c, const std::string& text, bool padded)
{
    c.trace(vh::str("text ", vh::hex(text.data(), text.size(), 400)));
    const jref::Parsed want = jref::parseAll(text);
    runParser(c, text, want, std::allocator<uint8_t>(), "plain");
    if (c.rng.chance(20))
    {
        std::pmr::polymorphic_allocator<uint8_t> alloc;
        runParser(c, text, want, alloc, "pmr");
    }
    runTokenizer(c, text, "plain");
    if (padded)
    {
        const size_t n = c.thorough ? 6 : 1;
        for (size_t k = 0; k < n; ++k)
        {
            std::string how;
            const std::string p = pad(c.rng, text, c.rng.below(text.size() + 1), how);
            c.trace(how);
            runParser(c, p, jref::parseAll(p), std::allocator<uint8_t>(), how);
            if (k == 0)
            {
                runTokenizer(c, p, how);
            }
            c.count("chunk_boundaries");
        }
    }
    c.distinct(vh::hashStr(text));
    if (c.wantSample())
    {
        c.sample(text.substr(0, 200));
    }
}

} // namespace

VH_SECTION(valid, 4000, 60000)
{
    jref::Gen g{c.rng, false};
    std::string text = g.text();
    const jref::Parsed p = jref::parseAll(text);
    c.check(p.docs.empty() || p.docs.back().ok, "harness-valid-text-refused-by-reference", text);
    if (p.docs.size() == 1)
    {
        jref::J j;
        const std::string err = jref::Strict(text).parse(j);
        if (err.empty())
        {
            c.count("strictly_valid");
        }
    }
    parserCase(c, text, c.idx % 25 == 0);
}

VH_SECTION(lenient, 4000, 60000)
{
    jref::Gen g{c.rng, true};
    parserCase(c, g.text(), c.idx % 80 == 0);
}

VH_SECTION(mutated, 8000, 120000)
{
    jref::Gen g{c.rng, c.rng.flip()};
    parserCase(c, jref::mutate(c.rng, g.text()), c.idx % 80 == 0);
}

VH_SECTION(random_text, 6000, 90000)
{
    static const char* words[] = {"{", "}", "[", "]", ":", ",", "\"", "\"a\"", "\"key\"", "1", "-5", "0.5", "null", "true", "false", " ", "\n",
            "\r", "\\", "NaN", "-Infinity", "e", "\t", "-", "\"\\u0041\""};
    std::string s;
    for (size_t n = c.rng.below(30); n > 0; --n)
    {
        if (c.rng.chance(10))
        {
            s += static_cast<char>(c.rng.below(256));
        }
        else
        {
            s += words[c.rng.below(sizeof words / sizeof *words)];
        }
    }
    parserCase(c, s, c.idx % 80 == 0);
}

// every position of a chunk boundary in short documents
VH_SECTION(boundaries, 96, 2000)
{
    jref::Gen g{c.rng, c.rng.chance(30)};
    std::string text;
    do
    {
        text = g.value(static_cast<int>(c.rng.below(3))) + g.ws();
    } while (text.size() > 40);
    if (c.rng.chance(40))
    {
        text = jref::mutate(c.rng, text);
    }
    c.trace(vh::str("text ", vh::hex(text.data(), text.size(), 400)));
    for (size_t at = c.idx % 4; at <= text.size(); at += c.thorough ? 1 : 4)
    {
        const std::string p = std::string(CHUNK - at, at % 2 == 0 ? ' ' : '\n') + text;
        const std::string how = vh::str("chunk ends before byte ", at);
        runParser(c, p, jref::parseAll(p), std::allocator<uint8_t>(), how);
        c.count("chunk_boundaries");
    }
    c.distinct(vh::hashStr(text));
}

// values given to the decoder in buffers of exactly their size
VH_SECTION(decoder, 20000, 400000)
{
    jref::Gen g{c.rng, true};
    std::string s;
    switch (c.rng.below(4))
    {
    case 0:
        s = g.number();
        break;
    case 1:
        s = g.string();
        break;
    case 2:
        s = jref::mutate(c.rng, c.rng.flip() ? g.number() : g.string());
        break;
    default:
        s = g.value(0);
        break;
    }
    if (c.rng.chance(20) && !s.empty())
    {
        s.resize(c.rng.below(s.size()));
    }
    c.trace(vh::hex(s.data(), s.size(), 200));
    const std::unique_ptr<char[]> buf(new char[s.size()]);
    std::copy(s.begin(), s.end(), buf.get());
    zserio::BasicJsonDecoder<> dec;
    const auto res = dec.decodeValue(std::string_view(buf.get(), s.size()));
    c.eval();
    if (s.empty())
    {
        c.check(!res.value.hasValue() && res.numReadChars == 0, "empty-input", "");
        return;
    }
    const Tok want = jref::valueToken(s, 0);
    VH_CHECK(c, res.numReadChars <= s.size(), "read-chars-beyond-input", res.numReadChars, " of ", s.size());
    VH_EQ(c, res.value.hasValue(), want.kind == Tok::VALUE, "decoder-acceptance", "");
    VH_EQ(c, res.integerOverflow, want.overflow, "decoder-overflow", "");
    c.count(want.kind == Tok::VALUE ? "decoded" : "refused");
    c.distinct(vh::hashStr(s));
    if (want.kind != Tok::VALUE)
    {
        return;
    }
    VH_EQ(c, res.numReadChars, want.end, "decoder-read-chars", "");
    const auto& v = res.value;
    bool ok = false;
    switch (want.value.kind)
    {
    case 'n':
        ok = v.isType<std::nullptr_t>();
        break;
    case 'b':
        ok = v.isType<bool>() && v.get<bool>() == (want.value.u != 0);
        break;
    case 'i':
        ok = v.isType<int64_t>() && static_cast<uint64_t>(v.get<int64_t>()) == want.value.u;
        break;
    case 'u':
        ok = v.isType<uint64_t>() && v.get<uint64_t>() == want.value.u;
        break;
    case 'd':
        ok = v.isType<double>() && jref::dblBits(v.get<double>()) == want.value.u;
        break;
    default:
        ok = v.isType<std::string>() && v.get<std::string>() == want.value.s;
        break;
    }
    c.check(ok, "decoded-value", want.value.text());
}

// deep nesting, well formed or cut short
VH_SECTION(nesting, 16, 120)
{
    const size_t depth = 1000 + c.rng.below(c.thorough ? 1000000 : 30000);
    const bool cut = c.idx % 3 == 0;
    std::string s;
    std::string kinds;
    for (size_t k = 0; k < depth; ++k)
    {
        const bool obj = c.idx % 2 == 0 || (c.idx % 5 == 0 && c.rng.flip());
        kinds += obj ? '}' : ']';
        s += obj ? "{\"a\":" : "[";
    }
    s += "1";
    if (!cut)
    {
        s.append(kinds.rbegin(), kinds.rend());
    }
    c.trace(vh::str("depth ", depth, cut ? " cut" : ""));
    std::istringstream is(s);
    Recorder<std::allocator<uint8_t>> rec;
    zserio::JsonParser parser(is, rec);
    bool thrown = false;
    try
    {
        c.check(parser.parse(), "parse-result", "");
    }
    catch (const zserio::JsonParserException&)
    {
        thrown = true;
    }
    VH_EQ(c, thrown, cut, "deep-nesting", depth);
    if (!cut)
    {
        const size_t objs = static_cast<size_t>(std::count(kinds.begin(), kinds.end(), '}'));
        VH_EQ(c, rec.events.size(), 2 * depth + objs + 1, "events", "");
    }
    c.count("levels", depth);
    c.distinct(depth);
}

namespace
{

struct FaultyBuf : std::streambuf
{
    FaultyBuf(const std::string& text, size_t failAt, int mode) :
            text(text),
            failAt(failAt),
            mode(mode)
    {}
    std::streamsize xsgetn(char* p, std::streamsize n) override
    {
        if (pos >= failAt)
        {
            if (mode == 0)
            {
                throw std::ios_base::failure("planned failure");
            }
            if (mode == 1)
            {
                throw std::runtime_error("planned failure");
            }
            return 0;
        }
        const size_t k = std::min(static_cast<size_t>(n), failAt - pos);
        std::copy(text.begin() + static_cast<std::ptrdiff_t>(pos), text.begin() + static_cast<std::ptrdiff_t>(pos + k), p);
        pos += k;
        return static_cast<std::streamsize>(k);
    }
    const std::string& text;
    size_t failAt;
    int mode;
    size_t pos = 0;
};

} // namespace

// the stream fails, throws or ends in the middle of the text
VH_SECTION(streams, 300, 3000)
{
    jref::Gen g{c.rng, false};
    std::string text = g.value(4);
    if (text.size() < CHUNK && c.rng.flip())
    {
        text = std::string(CHUNK - c.rng.below(text.size() + 1), ' ') + text + " [1,2,3]";
    }
    const size_t at = c.rng.flip() ? std::min(CHUNK, text.size()) : c.rng.below(text.size() + 1);
    const int mode = static_cast<int>(c.idx % 3);
    FaultyBuf buf(text, at, mode);
    std::istream is(&buf);
    Recorder<std::allocator<uint8_t>> rec;
    const jref::Parsed want = jref::parseAll(text.substr(0, at));
    bool thrown = false;
    bool foreign = false;
    try
    {
        zserio::JsonParser parser(is, rec);
        while (!parser.parse())
        {}
    }
    catch (const zserio::CppRuntimeException&)
    {
        thrown = true;
    }
    catch (const std::runtime_error&)
    {
        thrown = true;
        foreign = true;
    }
    c.trace(vh::str("fails at ", at, " mode ", mode));
    if (mode == 2)
    {
        VH_EQ(c, thrown, !want.docs.empty() && !want.docs.back().ok, "ended-stream", "");
    }
    else
    {
        c.check(thrown, "failed-stream-accepted", "");
        c.check(!foreign || mode == 1, "foreign-exception", "");
    }
    c.count(mode == 2 ? "ended" : "failed");
    c.distinct(vh::mix(vh::hashStr(text), at * 3 + static_cast<size_t>(mode)));
}

namespace
{

namespace N = tobj::std_allocator;

template <typename T>
std::string jsonOf(const T& obj, vh::Rng& r)
{
    std::ostringstream os;
    if (r.flip())
    {
        zserio::toJsonStream(obj, os, static_cast<uint8_t>(r.below(5)));
    }
    else
    {
        zserio::JsonWriter w(os);
        w.setEnumerableFormat(r.flip() ? zserio::JsonWriter::EnumerableFormat::STRING : zserio::JsonWriter::EnumerableFormat::NUMBER);
        zserio::Walker walker(w);
        walker.walk(zserio::reflectable(obj));
    }
    return os.str();
}

template <typename T>
std::string canonical(const T& obj)
{
    return std::string(zserio::toJsonString(obj));
}

} // namespace

// several documents in one stream, a damaged one among them
VH_SECTION(reader_sequences, 700, 9000)
{
    namespace O = test_object::std_allocator;
    using T = O::CreatorObject;
    tobj::Gen g(c.rng, tobj::Gen::UTF8, 3, 10);
    const size_t n = 1 + c.rng.below(4);
    const size_t bad = c.rng.flip() ? n : c.rng.below(n); // index of the damaged one, n is none
    std::vector<tobj::Node> nodes;
    std::string text;
    bool rejectedByGrammar = false;
    for (size_t k = 0; k < n; ++k)
    {
        nodes.push_back(g.creatorObject());
        T obj;
        N::build(nodes.back(), obj);
        std::string s = jsonOf(obj, c.rng);
        if (k == bad)
        {
            switch (c.rng.below(4))
            {
            case 0:
                s.resize(1 + c.rng.below(s.size() - 1));
                rejectedByGrammar = true;
                break;
            case 1: // unknown field
                s.insert(s.size() - 1, ", \"unknownField\": 3");
                break;
            case 2: // wrong type of the last field
                s.insert(s.size() - 1, ", \"value\": \"text\"");
                break;
            default:
                s.insert(s.size() - 1, ", \"nested\": {\"value\": {}}");
                break;
            }
        }
        text += s;
        text += c.rng.flip() ? "\n" : "";
        if (k == bad && rejectedByGrammar)
        {
            break; // what follows would be read as a part of it
        }
    }
    if (c.rng.chance(10))
    {
        text = std::string(CHUNK - c.rng.below(text.size() + 1), ' ') + text;
    }
    c.trace(vh::str(n, " documents, damaged ", bad));
    std::istringstream is(text);
    zserio::JsonReader reader(is);
    for (size_t k = 0; k < n + 2; ++k)
    {
        bool thrown = false;
        zserio::IReflectableDataPtr obj;
        try
        {
            obj = reader.read(zserio::typeInfo<T>());
        }
        catch (const zserio::CppRuntimeException&)
        {
            thrown = true;
        }
        c.eval();
        if (k < bad && k < n)
        {
            if (thrown || !obj)
            {
                // a complete document is followed by something undecodable: allowed to be noticed early
                c.fail("document-refused", vh::str("document ", k));
                return;
            }
            const tobj::Node got = N::extract(zserio::ReflectableUtil::getValue<T>(obj));
            c.check(got == nodes[k], "document", tobj::diff(got, nodes[k]));
            c.count("documents");
            continue;
        }
        if (!thrown)
        {
            // only a later complete document may come, nothing left over from the earlier ones
            const tobj::Node got = N::extract(zserio::ReflectableUtil::getValue<T>(obj));
            bool later = false;
            for (size_t q = bad + 1; q < n && q < nodes.size(); ++q)
            {
                later = later || got == nodes[q];
            }
            c.check(later, k >= n ? "object-at-end" : "object-after-error", vh::str("read ", k, ": ", got.text(200)));
        }
        c.count(k >= n ? "reads_at_end" : "reads_after_error");
    }
    c.distinct(vh::hashStr(text));
}

// damaged object documents: refused, or read into an object which reads back the same
VH_SECTION(reader_mutated, 3000, 60000)
{
    tobj::Gen g(c.rng, tobj::Gen::UTF8, 3, 8);
    N::withAnyType(c.idx, [&](auto* t, auto gen) {
        using T = std::remove_pointer_t<decltype(t)>;
        T obj;
        N::build(gen(g), obj);
        std::string s = jsonOf(obj, c.rng);
        if (c.rng.flip())
        {
            s = jref::mutate(c.rng, s);
        }
        else
        {
            // exchange or repeat whole values
            std::vector<std::pair<size_t, size_t>> values;
            jref::Scanner sc(s);
            for (Tok k = sc.next(); k.kind == Tok::PUNCT || k.kind == Tok::VALUE; k = sc.next())
            {
                values.emplace_back(k.begin, k.end);
            }
            if (!values.empty())
            {
                const auto a = values[c.rng.below(values.size())];
                const auto b = values[c.rng.below(values.size())];
                static const char* other[] = {"null", "true", "-1", "4294967296", "1.5", "\"text\"", "{}", "[]", "[null]", "{\"buffer\":[]}",
                        "{\"buffer\":[1,2],\"bitSize\":99}", "{\"bitSize\":3,\"buffer\":[255]}", "{\"buffer\":[256]}", "NaN", "\"READ\"",
                        "\"READ | WRITE\"", "\"3\"", "\"99999999999999999999\"", "\"\"", "-9223372036854775808", "18446744073709551615"};
                const std::string with =
                        c.rng.flip() ? s.substr(b.first, b.second - b.first) : other[c.rng.below(sizeof other / sizeof *other)];
                s.replace(a.first, a.second - a.first, with);
            }
        }
        c.trace(vh::hex(s.data(), s.size(), 600));
        std::istringstream is(s);
        try
        {
            zserio::JsonReader reader(is);
            auto read = reader.read(zserio::typeInfo<T>());
            const std::string first = canonical(zserio::ReflectableUtil::getValue<T>(read));
            c.count("accepted");
            const jref::Parsed p = jref::parseAll(s);
            c.check(!p.docs.empty() && p.docs[0].ok, "malformed-text-accepted", "");
            std::istringstream is2(first);
            zserio::JsonReader reader2(is2);
            try
            {
                auto again = reader2.read(zserio::typeInfo<T>());
                const std::string second = canonical(zserio::ReflectableUtil::getValue<T>(again));
                c.check(first == second, "unstable-object", "");
            }
            catch (const zserio::CppRuntimeException& e)
            {
                // an enumeration without such item is not readable
                c.check(first.find("no match") != std::string::npos, "own-text-refused", e.what());
            }
        }
        catch (const zserio::CppRuntimeException&)
        {
            c.count("refused");
        }
        c.distinct(vh::hashStr(s));
    });
}

namespace
{

// a byte sequence or a bit buffer as JSON text, of the right or of a wrong shape
struct ByteText
{
    std::string text;
    bool valid = true;
    std::vector<uint8_t> bytes;
    size_t bits = 0;
};

ByteText byteText(vh::Rng& r, bool bitBuffer, unsigned wrongPercent)
{
    static const char* notNumber[] = {"null", "true", "false", "-1", "-128", "1.5", "1e1", "\"1\"", "[]", "[1]", "{}", "{\"buffer\":[]}", "256", "65536",
            "18446744073709551615"};
    static const char* notArray[] = {"null", "true", "-1", "7", "1.5", "\"\"", "{}", "{\"buffer\":[]}", "[[]]", "[[1]]"};
    static const char* notObject[] = {"true", "-1", "7", "1.5", "\"text\"", "[]", "[1,2]", "[{}]", "{}"};
    ByteText t;
    const unsigned n = static_cast<unsigned>(r.below(6));
    const bool wrong = r.chance(wrongPercent);
    const unsigned how = wrong ? static_cast<unsigned>(r.below(bitBuffer ? 9 : 5)) : 99;
    t.valid = !wrong;
    if (how == 0)
    {
        t.text = notObject[r.below(std::size(notObject))];
        return t;
    }
    std::string arr = "[";
    const size_t count = how == 1 ? n + 1 : n;
    const size_t at = r.below(count + 1);
    for (size_t i = 0; i < count; ++i)
    {
        t.bytes.push_back(static_cast<uint8_t>(r.flip() ? r.below(256) : (r.flip() ? 255 : 0)));
        arr += (i > 0 ? "," : "") + (how == 1 && i == at % count ? std::string(notNumber[r.below(std::size(notNumber))]) : std::to_string(t.bytes.back()));
    }
    arr += "]";
    if (how == 2)
    {
        arr = notArray[r.below(std::size(notArray))];
    }
    t.bits = t.bytes.size() * 8;
    if (!t.bytes.empty() && r.flip())
    {
        t.bits -= r.below(8);
    }
    std::string size = std::to_string(t.bits);
    if (how == 5)
    {
        static const char* notSize[] = {"null", "true", "-1", "1.5", "\"8\"", "[]", "{}", "[1]"};
        size = notSize[r.below(std::size(notSize))];
    }
    else if (how == 6)
    {
        static const uint64_t more[] = {1, 2, 8, 64, uint64_t(1) << 32, ~uint64_t(0) >> 4, ~uint64_t(0) - 100};
        size = std::to_string(t.bytes.size() * 8 + more[r.below(std::size(more))]);
    }
    std::vector<std::string> members = {"\"buffer\":" + arr};
    if (bitBuffer && how != 7)
    {
        members.push_back("\"bitSize\":" + size);
    }
    if (how == 3)
    {
        members.push_back(r.flip() ? "\"value\":1" : (bitBuffer ? "\"bitsize\":1" : "\"bitSize\":8"));
    }
    if (how == 4 || how == 8)
    {
        members.erase(members.begin()); // no buffer
    }
    if (members.size() > 1 && r.flip())
    {
        std::swap(members.front(), members.back());
    }
    t.text = "{";
    for (size_t i = 0; i < members.size(); ++i)
    {
        t.text += (i > 0 ? "," : "") + members[i];
    }
    t.text += "}";
    return t;
}

} // namespace

// byte sequences and bit buffers inside of object documents
VH_SECTION(byte_objects, 3000, 90000)
{
    namespace O = test_object::std_allocator;
    auto& r = c.rng;
    const unsigned wrong = r.flip() ? 0 : 25;
    const bool nested = r.flip();
    std::vector<ByteText> bufs;
    std::vector<ByteText> bytes;
    const size_t n = nested ? 1 : r.below(4);
    const size_t m = nested ? 1 : r.below(4);
    bool valid = true;
    const auto list = [&](std::vector<ByteText>& to, size_t count, bool bitBuffer) {
        std::string s = "[";
        for (size_t i = 0; i < count; ++i)
        {
            to.push_back(byteText(r, bitBuffer, wrong));
            valid = valid && to.back().valid;
            s += (i > 0 ? "," : "") + to.back().text;
        }
        return s + "]";
    };
    const std::string a = list(bufs, n, true);
    const std::string b = list(bytes, m, false);
    std::string s;
    if (nested)
    {
        s = "{\"nested\":{\"externData\":" + bufs[0].text + ",\"bytesData\":" + bytes[0].text + "},\"value\":3}";
    }
    else
    {
        s = "{\"externArray\":" + a + ",\"value\":3,\"bytesArray\":" + b + "}";
    }
    c.trace(s);
    std::istringstream is(s);
    zserio::IReflectableDataPtr obj;
    std::string error;
    try
    {
        zserio::JsonReader reader(is);
        obj = reader.read(zserio::typeInfo<O::CreatorObject>());
    }
    catch (const zserio::CppRuntimeException& e)
    {
        error = e.what();
    }
    c.count(valid ? "valid" : "invalid");
    c.distinct(vh::hashStr(s));
    if (!valid)
    {
        c.check(!error.empty(), "wrong-bytes-accepted", s);
        return;
    }
    if (!error.empty())
    {
        c.fail("right-bytes-refused", vh::str(error, ": ", s));
        return;
    }
    const auto& got = zserio::ReflectableUtil::getValue<O::CreatorObject>(obj);
    const auto sameBits = [&](const zserio::BitBuffer& g, const ByteText& w) {
        return g == zserio::BitBuffer(zserio::Vector<uint8_t>(w.bytes.begin(), w.bytes.end()), w.bits) && g.getBitSize() == w.bits;
    };
    const auto sameBytes = [&](const zserio::Bytes& g, const ByteText& w) {
        return std::equal(g.begin(), g.end(), w.bytes.begin(), w.bytes.end());
    };
    VH_EQ(c, static_cast<uint32_t>(got.value), 3U, "following-field", s);
    if (nested)
    {
        c.check(sameBits(got.nested.externData, bufs[0]), "bit-buffer", s);
        c.check(sameBytes(got.nested.bytesData, bytes[0]), "bytes", s);
        return;
    }
    c.check(got.externArray.has_value() && got.externArray->size() == n, "bit-buffers-count", s);
    c.check(got.bytesArray.has_value() && got.bytesArray->size() == m, "bytes-count", s);
    for (size_t i = 0; i < n && got.externArray.has_value() && got.externArray->size() == n; ++i)
    {
        c.check(sameBits((*got.externArray)[i], bufs[i]), "bit-buffer-element", s);
    }
    for (size_t i = 0; i < m && got.bytesArray.has_value() && got.bytesArray->size() == m; ++i)
    {
        c.check(sameBytes((*got.bytesArray)[i], bytes[i]), "bytes-element", s);
    }
}
