// included with TOBJ_NS and C23_FN defined
namespace c23
{

namespace N = tobj::TOBJ_NS;
using AL = ::test_object::TOBJ_NS::CreatorNested::allocator_type;

// one value: bound by the helper, read by plain SQLite calls and by the helper
template <typename T, typename BIND, typename READ, typename SAME>
static void one(vh::Case& c, Db& db, const std::string& what, bool present, const Plain& want, BIND&& bind, READ&& read, SAME&& same)
{
    c.check(zserio::detail::ColumnTraits<T>::TYPE == wantType<T>(), "column-type", what);
    const std::string name = zserio::detail::ColumnTraits<T>::TYPE == SQLITE_INTEGER
            ? "INTEGER"
            : (zserio::detail::ColumnTraits<T>::TYPE == SQLITE_FLOAT ? "REAL" : (zserio::detail::ColumnTraits<T>::TYPE == SQLITE_TEXT ? "TEXT" : "BLOB"));
    c.check(typeName<T>() == name, "column-type-name", what);
    c.check(name == zserio::ValidationSqliteUtil<AL>::sqliteColumnTypeName(zserio::detail::ColumnTraits<T>::TYPE), "type-name-of-code", what);
    db.exec(vh::str("CREATE TABLE IF NOT EXISTS t", name, "(id INTEGER PRIMARY KEY, x, v ", name, ", y)"));
    {
        Stmt ins(db.db, vh::str("INSERT INTO t", name, " VALUES(7, ?1, ?2, ?3)"));
        sqlite3_bind_int64(ins.s, 1, 111);
        sqlite3_bind_int64(ins.s, 3, 333);
        c.check((present ? bind(*ins.s, 2) : sqlite3_bind_null(ins.s, 2)) == SQLITE_OK, "bind-refused", what);
        const int rc = sqlite3_step(ins.s);
        c.check(rc == SQLITE_DONE, "insert-refused", vh::str(what, " ", rc));
    }
    {
        Stmt sel(db.db, vh::str("SELECT id, x, v, y FROM t", name, " WHERE id = 7"));
        const int rc = sqlite3_step(sel.s);
        c.check(rc == SQLITE_ROW, "select", vh::str(rc));
        const Plain got = fetch(sel.s, 2);
        c.check(got == (present ? want : Plain()), "stored", vh::str(what, ": ", show(got), " expected ", show(present ? want : Plain())));
        c.check(sqlite3_column_int64(sel.s, 1) == 111 && sqlite3_column_int64(sel.s, 3) == 333, "other-columns", what);
        if (got.type != SQLITE_NULL)
        {
            zserio::BasicOptional<zserio::RebindAlloc<AL, T>, T> column{zserio::RebindAlloc<AL, T>(AL())};
            read(column, *sel.s, 2);
            c.check(column.has_value(), "read-absent", what);
            c.check(column.has_value() && same(*column), "read-different", vh::str(what, " ", show(want)));
            c.count("fetched");
        }
        else
        {
            c.count("absent");
        }
    }
    db.exec("DELETE FROM t" + name);
    db.noStatements("values/statement-left");
}

template <typename T, typename... ARGS>
static void object(vh::Case& c, Db& db, const std::string& what, T& obj, const std::vector<uint8_t>& bytes, const ARGS&... args)
{
    Plain want;
    want.type = SQLITE_BLOB;
    want.s.assign(bytes.begin(), bytes.end());
    const zserio::View<T> view(obj, args...);
    one<T>(
            c, db, what, c.rng.chance(95), want,
            [&](sqlite3_stmt& s, int i) {
                const auto size = zserio::detail::prepareColumn(view);
                return zserio::detail::bindColumn(s, i, view, size, AL());
            },
            [&](auto& column, sqlite3_stmt& s, int i) { zserio::detail::readColumn(column, s, i, args...); },
            [&](const T& got) { return got == obj; });
    c.count("objects");
    if (bytes.empty())
    {
        c.count("empty_objects");
    }
    // truncated blobs are refused or read as something else, but never beyond their end
    if (!bytes.empty() && c.rng.chance(30))
    {
        Stmt sel(db.db, "SELECT ?1");
        std::vector<uint8_t> cut(bytes.begin(), bytes.end() - 1 - static_cast<ptrdiff_t>(c.rng.below(bytes.size())));
        sqlite3_bind_blob(sel.s, 1, cut.empty() ? "" : static_cast<const void*>(cut.data()), static_cast<int>(cut.size()), SQLITE_TRANSIENT);
        sqlite3_step(sel.s);
        zserio::BasicOptional<zserio::RebindAlloc<AL, T>, T> column{zserio::RebindAlloc<AL, T>(AL())};
        try
        {
            zserio::detail::readColumn(column, *sel.s, 0, args...);
            c.fail("truncated-blob-read", what);
        }
        catch (const zserio::CppRuntimeException&)
        {}
        c.count("truncated");
    }
}

void C23_FN(objects)(vh::Case& c)
{
    tobj::Gen gen(c.rng, tobj::Gen::ANY, 4, 20);
    Db db(c);
    for (uint64_t k = 0; k < 4; ++k)
    {
        N::withAnyType(c.idx * 4 + k, [&](auto* t, auto make) {
            using T = std::remove_pointer_t<decltype(t)>;
            const tobj::Node node = make(gen);
            T obj{AL()};
            N::build(node, obj);
            c.distinct(node.hash());
            const auto args = N::args(node, static_cast<T*>(nullptr));
            std::apply([&](const auto&... a) { object(c, db, node.text(100), obj, tobj::encodeBytes(node), a...); }, args);
        });
    }
}

void C23_FN(values)(vh::Case& c)
{
    using All = allobj::AllObj<AL>;
    using Tuple = allobj::Types<AL>;
    Db db(c);
    const bool utf16 = c.rng.chance(20);
    if (utf16)
    {
        db.exec("PRAGMA encoding = 'UTF-16'");
    }
    allobj::Fill fill{c.rng, 3, utf16, true};
    (void)sizeof(All);
    std::apply(
            [&](auto... proto) {
                const auto doOne = [&](auto v) {
                    using T = decltype(v);
                    if constexpr ((c18::is_leaf<T> && !c18::is_bytes<T> && !c18::IsBuf<T>::value) || c18::is_text<T>)
                    {
                        fill(v);
                        if constexpr (c18::is_text<T>)
                        {
                            if (utf16)
                            {
                                const std::string s = tobj::Gen(c.rng, tobj::Gen::UTF8_NONUL).str();
                                v.assign(s.data(), s.size());
                            }
                            else if (c.rng.chance(10))
                            {
                                v.clear();
                            }
                            c.count(v.empty() ? "empty_texts" : (v.find('\0') != T::npos ? "texts_with_nul" : "texts"));
                        }
                        const Plain want = plainOf(v);
                        c.distinct(vh::mix(vh::hashStr(want.s), vh::mix(static_cast<uint64_t>(want.i), ref::f64bits(want.d))));
                        one<T>(
                                c, db, vh::str("value of ", std::string(zserio::typeInfo<T, AL>().getSchemaName())), c.rng.chance(90), want,
                                [&](sqlite3_stmt& s, int i) {
                                    if constexpr (c18::is_text<T>)
                                    {
                                        const std::string_view text = v.empty() && c.rng.flip() ? std::string_view() : std::string_view(v);
                                        return zserio::detail::bindColumn(s, i, text, zserio::detail::prepareColumn(text), AL());
                                    }
                                    else
                                    {
                                        return zserio::detail::bindColumn(s, i, v, zserio::detail::prepareColumn(v), AL());
                                    }
                                },
                                [&](auto& column, sqlite3_stmt& s, int i) { zserio::detail::readColumn(column, s, i); },
                                [&](const T& got) { return sameValue(got, v); });
                        c.count("values");
                    }
                };
                (doOne(std::move(proto)), ...);
            },
            Tuple());
}

} // namespace c23
