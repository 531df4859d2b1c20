// SQLite helpers
#pragma once
#include <sqlite3.h>

#include "c18.h"
#include "allobj.h"
#include "zserio/SqliteConnection.h"
#include "zserio/SqliteUtil.h"
#include "zserio/ValidationSqliteUtil.h"

namespace c23
{

// database in memory, closed by the destructor, which checks that nothing is left open
struct Db
{
    vh::Case& c;
    sqlite3* db = nullptr;
    explicit Db(vh::Case& aCase, const char* name = ":memory:") :
            c(aCase)
    {
        if (sqlite3_open(name, &db) != SQLITE_OK)
        {
            throw std::runtime_error("cannot open a database");
        }
    }
    ~Db()
    {
        sqlite3_close_v2(db);
    }
    void noStatements(const char* key)
    {
        c.check(sqlite3_next_stmt(db, nullptr) == nullptr, key, "a statement is still open");
    }
    void exec(const std::string& q)
    {
        char* err = nullptr;
        if (sqlite3_exec(db, q.c_str(), nullptr, nullptr, &err) != SQLITE_OK)
        {
            const std::string e = vh::str("harness statement failed: ", q, ": ", err == nullptr ? "" : err);
            sqlite3_free(err);
            throw std::runtime_error(e);
        }
    }
};
struct Stmt
{
    sqlite3_stmt* s = nullptr;
    Stmt(sqlite3* db, const std::string& q)
    {
        if (sqlite3_prepare_v2(db, q.c_str(), -1, &s, nullptr) != SQLITE_OK)
        {
            throw std::runtime_error(vh::str("harness statement failed: ", q, ": ", sqlite3_errmsg(db)));
        }
    }
    ~Stmt()
    {
        sqlite3_finalize(s);
    }
    Stmt(const Stmt&) = delete;
    Stmt& operator=(const Stmt&) = delete;
};

// the value which a plain SQLite call has to find
struct Plain
{
    int type = SQLITE_NULL;
    int64_t i = 0;
    double d = 0;
    std::string s;
};

inline std::string show(const Plain& p)
{
    char t[60];
    snprintf(t, sizeof t, "type %d int %lld real %.17g ", p.type, static_cast<long long>(p.i), p.d);
    return t + vh::hex(p.s.data(), std::min<size_t>(p.s.size(), 40)) + vh::str("/", p.s.size());
}
inline Plain fetch(sqlite3_stmt* s, int i)
{
    Plain p;
    p.type = sqlite3_column_type(s, i);
    switch (p.type)
    {
    case SQLITE_INTEGER:
        p.i = sqlite3_column_int64(s, i);
        break;
    case SQLITE_FLOAT:
        p.d = sqlite3_column_double(s, i);
        break;
    case SQLITE_TEXT:
    case SQLITE_BLOB:
    {
        // column_text and not column_blob for a text, the database can be UTF-16
        const void* q = p.type == SQLITE_TEXT ? static_cast<const void*>(sqlite3_column_text(s, i))
                                              : sqlite3_column_blob(s, i);
        const int n = sqlite3_column_bytes(s, i);
        if (n != 0)
        {
            p.s.assign(static_cast<const char*>(q), static_cast<size_t>(n));
        }
        break;
    }
    default:
        break;
    }
    return p;
}
inline bool operator==(const Plain& a, const Plain& b)
{
    return a.type == b.type && a.i == b.i && a.d == b.d && a.s == b.s;
}

template <typename T>
std::string_view typeName()
{
    return zserio::detail::ColumnTraits<T>::TYPE_NAME;
}
// what ColumnTraits have to say
template <typename T>
int wantType()
{
    if constexpr (c18::is_text<T>)
    {
        return SQLITE_TEXT;
    }
    else if constexpr (std::is_enum_v<T> || zserio::is_bitmask_v<T>)
    {
        return SQLITE_INTEGER;
    }
    else if constexpr (zserio::is_numeric_wrapper_v<T>)
    {
        return std::is_floating_point_v<typename T::ValueType> ? SQLITE_FLOAT : SQLITE_INTEGER;
    }
    else
    {
        return SQLITE_BLOB;
    }
}
template <typename T>
Plain plainOf(const T& v)
{
    Plain p;
    p.type = wantType<T>();
    if constexpr (c18::is_text<T>)
    {
        p.s = std::string(std::string_view(v));
    }
    else if constexpr (std::is_enum_v<T>)
    {
        p.i = static_cast<int64_t>(static_cast<std::underlying_type_t<T>>(v));
    }
    else if constexpr (zserio::is_bitmask_v<T>)
    {
        const typename T::ZserioType::ValueType x = v.getValue();
        p.i = static_cast<int64_t>(x);
    }
    else if constexpr (std::is_floating_point_v<typename T::ValueType>)
    {
        p.d = static_cast<double>(static_cast<typename T::ValueType>(v));
        if (std::isnan(p.d))
        {
            // SQLite has no NaN
            p = Plain();
        }
    }
    else
    {
        p.i = static_cast<int64_t>(static_cast<typename T::ValueType>(v));
    }
    return p;
}
template <typename T>
bool sameValue(const T& a, const T& b)
{
    if constexpr (c18::is_text<T>)
    {
        return std::string_view(a) == std::string_view(b);
    }
    else if constexpr (zserio::is_numeric_wrapper_v<T>)
    {
        using V = typename T::ValueType;
        return static_cast<V>(a) == static_cast<V>(b);
    }
    else
    {
        return a == b;
    }
}

template <typename A, typename T, typename... ARGS>
bool typeIs(const Plain& p, const zserio::BasicOptional<A, T>&)
{
    return p.type == zserio::detail::ColumnTraits<T>::TYPE;
}

} // namespace c23
