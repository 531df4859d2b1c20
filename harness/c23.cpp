// C23: SQLite helpers store and fetch faithfully, report every error and release everything
#include <cstdio>

#include "c23.h"

namespace c18
{
bool sameBits(double a, double b)
{
    return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b));
}
} // namespace c18

namespace c23
{
#define DECL(x) void x(vh::Case& c)
DECL(objects_std);
DECL(objects_pmr);
DECL(objects_ppmr);
DECL(values_std);
DECL(values_pmr);
DECL(values_ppmr);

using zserio::SqliteConnection;
using zserio::SqliteException;
using Util = zserio::ValidationSqliteUtil<std::allocator<uint8_t>>;

// memory of SQLite with planned failures
static sqlite3_mem_methods g_default;
static int64_t g_failIn = 0;
static uint64_t g_failed = 0;
static bool memFails()
{
    if (g_failIn > 0 && --g_failIn == 0)
    {
        ++g_failed;
        return true;
    }
    return false;
}
static void* memMalloc(int n)
{
    return memFails() ? nullptr : g_default.xMalloc(n);
}
static void* memRealloc(void* p, int n)
{
    return memFails() ? nullptr : g_default.xRealloc(p, n);
}
static const bool g_configured = []() {
    sqlite3_config(SQLITE_CONFIG_GETMALLOC, &g_default);
    sqlite3_mem_methods m = g_default;
    m.xMalloc = memMalloc;
    m.xRealloc = memRealloc;
    sqlite3_config(SQLITE_CONFIG_MALLOC, &m);
    sqlite3_config(SQLITE_CONFIG_MEMSTATUS, 1);
    sqlite3_config(SQLITE_CONFIG_LOOKASIDE, 0, 0);
    return true;
}();

// connection notifies when it is really closed
struct Closed
{
    static void destroyed(void* p)
    {
        ++*static_cast<int*>(p);
    }
    static void nothing(sqlite3_context* ctx, int, sqlite3_value**)
    {
        sqlite3_result_int(ctx, 1);
    }
    static sqlite3* open(const char* name, int* counter)
    {
        sqlite3* db = nullptr;
        if (sqlite3_open(name, &db) != SQLITE_OK)
        {
            throw std::runtime_error("cannot open a database");
        }
        sqlite3_create_function_v2(db, "closed", 0, SQLITE_UTF8, counter, nothing, nullptr, nullptr, destroyed);
        return db;
    }
};

template <typename F>
static int outcome(vh::Case& c, F&& f, std::string* text = nullptr) // 0: fine, 1: SqliteException, 2: another exception
{
    c.eval();
    try
    {
        f();
    }
    catch (const SqliteException& e)
    {
        if (text != nullptr)
        {
            *text = e.what();
        }
        return 1;
    }
    catch (const std::exception&)
    {
        return 2;
    }
    return 0;
}

// owners of connections
static void owners(vh::Case& c)
{
    vh::Rng& r = c.rng;
    const int n = 4;
    std::vector<int> closed(n, 0);
    std::vector<sqlite3*> external;
    std::vector<int> wantClosed(n, 0);
    {
        int next = 0;
        sqlite3* cur = nullptr;
        int curIndex = -1;
        bool internal = true;
        std::unique_ptr<SqliteConnection> con;
        if (r.flip())
        {
            con = std::make_unique<SqliteConnection>();
        }
        else
        {
            cur = Closed::open(":memory:", &closed[static_cast<size_t>(next)]);
            curIndex = next++;
            internal = r.flip();
            if (internal && r.flip())
            {
                con = std::make_unique<SqliteConnection>(cur);
            }
            else
            {
                con = std::make_unique<SqliteConnection>(cur, internal ? SqliteConnection::INTERNAL_CONNECTION : SqliteConnection::EXTERNAL_CONNECTION);
            }
        }
        for (int step = 0; step < 6; ++step)
        {
            c.check(con->getConnection() == cur, "owner/connection", "not the connection given");
            if (cur != nullptr)
            {
                c.check((con->getConnectionType() == SqliteConnection::INTERNAL_CONNECTION) == internal, "owner/type", "not the type given");
                c.check(outcome(c, [&]() { con->executeUpdate("CREATE TABLE IF NOT EXISTS t(x)"); }) == 0, "owner/usable", "connection does not work");
            }
            c.check(closed == wantClosed, "owner/closed", "connections closed at a wrong time");
            if (next < n && r.chance(70))
            {
                if (cur != nullptr)
                {
                    if (internal)
                    {
                        wantClosed[static_cast<size_t>(curIndex)] = 1;
                    }
                    else
                    {
                        external.push_back(cur);
                    }
                }
                cur = Closed::open(":memory:", &closed[static_cast<size_t>(next)]);
                curIndex = next++;
                internal = r.flip();
                if (internal && r.flip())
                {
                    con->reset(cur);
                }
                else
                {
                    con->reset(cur, internal ? SqliteConnection::INTERNAL_CONNECTION : SqliteConnection::EXTERNAL_CONNECTION);
                }
            }
            else if (r.flip())
            {
                if (cur != nullptr)
                {
                    if (internal)
                    {
                        wantClosed[static_cast<size_t>(curIndex)] = 1;
                    }
                    else
                    {
                        external.push_back(cur);
                    }
                }
                cur = nullptr;
                con->reset();
            }
            c.check(closed == wantClosed, "owner/closed", "connections closed at a wrong time");
        }
        if (cur != nullptr)
        {
            if (internal)
            {
                wantClosed[static_cast<size_t>(curIndex)] = 1;
            }
            else
            {
                external.push_back(cur);
            }
        }
        con.reset();
        c.check(closed == wantClosed, "owner/destructor", "connections closed at a wrong time");
        c.count("external", external.size());
        for (const int k : wantClosed)
        {
            c.count("internal", static_cast<uint64_t>(k));
        }
    }
    for (sqlite3* e : external)
    {
        Stmt alive(e, "SELECT closed()");
        c.check(sqlite3_step(alive.s) == SQLITE_ROW, "owner/external-closed", "external connection does not work");
    }
    for (sqlite3* e : external)
    {
        c.check(sqlite3_close(e) == SQLITE_OK, "owner/external-in-use", "external connection cannot be closed");
    }
}

using Table = std::map<int64_t, std::string>;

static Table readTable(sqlite3* db)
{
    Table t;
    Stmt s(db, "SELECT id, s FROM t");
    while (sqlite3_step(s.s) == SQLITE_ROW)
    {
        const Plain p = fetch(s.s, 1);
        t[sqlite3_column_int64(s.s, 0)] = p.s;
    }
    return t;
}

// hostile conditions which make a statement fail
struct Trouble
{
    enum K
    {
        NONE,
        INTERRUPT,
        DENIED,
        LOCKED,
        COMMIT_HOOK,
        READ_ONLY
    };
};

// histories of updates and transactions against a model of what is committed and what is visible
static void history(vh::Case& c, bool memoryFails)
{
    vh::Rng& r = c.rng;
    const std::string file = vh::str(vh::scratchDir(), "/c23_", c.idx, ".db");
    std::remove(file.c_str());
    int closed = 0;
    const auto usedBefore = sqlite3_memory_used();
    Table committed;
    {
        SqliteConnection con(Closed::open(file.c_str(), &closed));
        sqlite3* db = con.getConnection();
        sqlite3_exec(db, "PRAGMA synchronous=OFF; PRAGMA journal_mode=MEMORY", nullptr, nullptr, nullptr);
        con.executeUpdate("CREATE TABLE t(id INTEGER PRIMARY KEY, s TEXT CHECK (length(s) < 9))");
        Table visible;
        bool open = false;
        std::vector<bool> started; // results of startTransaction() not ended yet
        std::string log;
        const auto bad = [&](const char* key, const std::string& d) { c.fail(vh::str(memoryFails ? "memory/" : "history/", key), d + " after " + log); };
        const size_t steps = 4 + r.below(c.thorough ? 40 : 16);
        for (size_t i = 0; i < steps; ++i)
        {
            std::string text;
            int want = 0;
            Table after = visible;
            std::function<void()> f;
            bool willStart = false;
            bool didStart = false;
            bool ends = false;
            bool endArg = false;
            const int64_t id = static_cast<int64_t>(r.below(6));
            const auto k = r.below(13);
            bool queryHeldInString = false;
            std::string q;
            switch (k)
            {
            case 0:
            case 1:
            case 2:
            {
                std::string s;
                static const char* parts[] = {"a", "''", "\"", ";", "--", "\xc3\xa9", " "};
                std::string quoted;
                for (uint64_t n = r.below(4); n > 0; --n)
                {
                    const char* p = r.pick(parts);
                    quoted += p;
                    s += std::string(p) == "''" ? "'" : p;
                }
                q = vh::str("INSERT INTO t VALUES(", id, ", '", quoted, "')");
                if (visible.count(id) != 0)
                {
                    want = 1;
                }
                else
                {
                    after[id] = s;
                }
                queryHeldInString = true;
                break;
            }
            case 3:
                q = vh::str("DELETE FROM t WHERE id = ", id);
                after.erase(id);
                queryHeldInString = true;
                break;
            case 4:
                q = vh::str("UPDATE t SET s = s || 'xyz' WHERE id <= ", id);
                queryHeldInString = true;
                for (auto& [key, s] : after)
                {
                    if (key <= id)
                    {
                        s += "xyz";
                        size_t length = 0;
                        for (const char ch : s)
                        {
                            length += (static_cast<unsigned char>(ch) & 0xc0U) != 0x80 ? 1 : 0;
                        }
                        if (length >= 9)
                        {
                            want = 1;
                        }
                    }
                }
                if (want != 0)
                {
                    after = visible;
                }
                break;
            case 5:
            {
                static const char* wrong[] = {"", "nonsense", "INSERT INTO nosuch VALUES(1)", "INSERT INTO t VALUES(1)", "SELECT 1", "DELETE FROM t WHERE", "COMMIT2", ";", "'", "INSERT INTO t VALUES(100, 'long enough text')"};
                q = r.pick(wrong);
                want = 1;
                queryHeldInString = true;
                break;
            }
            case 6:
            case 7:
                text = "startTransaction";
                willStart = true;
                f = [&]() { didStart = con.startTransaction(); };
                break;
            case 8:
            case 9:
                ends = true;
                endArg = !started.empty() ? static_cast<bool>(started.back()) : r.chance(10);
                text = vh::str("endTransaction ", endArg);
                f = [&]() { con.endTransaction(endArg); };
                want = endArg && !open ? 1 : 0;
                break;
            case 10:
                if (open && r.chance(50))
                {
                    q = "ROLLBACK";
                    queryHeldInString = true;
                    after = committed;
                }
                break;
            case 11:
            {
                // the statement belongs to the caller
                text = "prepare";
                f = [&]() {
                    std::unique_ptr<sqlite3_stmt, zserio::SqliteFinalizer> st(con.prepareStatement("SELECT count(*) FROM t"));
                    const int rc = sqlite3_step(st.get());
                    if (rc != SQLITE_ROW)
                    {
                        // a failed step can undo the whole transaction
                        throw zserio::SqliteException("step failed: ") << zserio::SqliteErrorCode(rc);
                    }
                    if (sqlite3_column_int64(st.get(), 0) != static_cast<int64_t>(visible.size()))
                    {
                        bad("count", "count of rows");
                    }
                };
                break;
            }
            default:
                text = "count";
                f = [&]() {
                    const size_t got = Util::getNumberOfTableRows(con, r.flip() ? "" : "main", "t", std::allocator<uint8_t>());
                    if (got != visible.size())
                    {
                        bad("number-of-rows", vh::str(got));
                    }
                };
                break;
            }
            if (queryHeldInString)
            {
                text = q;
                // neither terminated by zero nor followed by harmless text
                auto held = std::make_shared<std::vector<char>>(q.begin(), q.end());
                held->shrink_to_fit();
                f = [&con, held]() { con.executeUpdate(std::string_view(held->data(), held->size())); };
            }
            if (!f)
            {
                continue;
            }
            log += text + "; ";
            // trouble
            Trouble::K trouble = Trouble::NONE;
            sqlite3* other = nullptr;
            if (!memoryFails && want == 0 && r.chance(25))
            {
                trouble = static_cast<Trouble::K>(1 + r.below(5));
            }
            switch (trouble)
            {
            case Trouble::INTERRUPT:
                sqlite3_progress_handler(
                        db, 1, [](void*) { return 1; }, nullptr);
                break;
            case Trouble::DENIED:
                sqlite3_set_authorizer(
                        db, [](void*, int, const char*, const char*, const char*, const char*) { return SQLITE_DENY; }, nullptr);
                break;
            case Trouble::LOCKED:
                if (!open)
                {
                    sqlite3_open(file.c_str(), &other);
                    sqlite3_exec(other, "BEGIN EXCLUSIVE", nullptr, nullptr, nullptr);
                }
                break;
            case Trouble::COMMIT_HOOK:
                sqlite3_commit_hook(
                        db, [](void*) { return 1; }, nullptr);
                break;
            case Trouble::READ_ONLY:
                sqlite3_exec(db, "PRAGMA query_only=ON", nullptr, nullptr, nullptr);
                break;
            default:
                break;
            }
            std::string message;
            const bool autoBefore = sqlite3_get_autocommit(db) != 0;
            if (memoryFails && r.chance(70))
            {
                g_failIn = 1 + static_cast<int64_t>(r.below(r.flip() ? 12 : 80));
            }
            const uint64_t failedBefore = g_failed;
            const int changesBefore = sqlite3_total_changes(db);
            const int got = outcome(c, f, &message);
            g_failIn = 0;
            const bool memFailed = g_failed != failedBefore;
            sqlite3_progress_handler(db, 0, nullptr, nullptr);
            sqlite3_set_authorizer(db, nullptr, nullptr);
            sqlite3_commit_hook(db, nullptr, nullptr);
            if (trouble == Trouble::READ_ONLY)
            {
                sqlite3_exec(db, "PRAGMA query_only=OFF", nullptr, nullptr, nullptr);
            }
            if (other != nullptr)
            {
                sqlite3_close(other);
            }
            (void)changesBefore;
            // what SQLite itself says happened
            const bool autoAfter = sqlite3_get_autocommit(db) != 0;
            if (sqlite3_next_stmt(db, nullptr) != nullptr)
            {
                bad("statement-left", "an open statement");
            }
            if (got == 2)
            {
                bad("other-exception", message);
            }
            const bool disturbed = trouble != Trouble::NONE || memFailed;
            const Table now = readTable(db);
            if (disturbed)
            {
                c.count(memFailed ? "memory_failures" : vh::str("trouble_", static_cast<int>(trouble)).c_str());
                c.count(got == 0 ? "went_through" : "reported");
                // an undone statement must be reported; a reported one may be undone alone or with its transaction
                const bool effect = now == after && (!willStart || (!open ? !autoAfter : true)) && (!ends || !endArg || autoAfter);
                if (got == 0 && !effect)
                {
                    bad("error-not-reported", vh::str("trouble ", static_cast<int>(trouble), " ", text));
                }
                if (got != 0)
                {
                    if (message.find("SQLITE") == std::string::npos && message.find("failed: ") == std::string::npos)
                    {
                        bad("message", message);
                    }
                    const bool undone = now == visible;
                    const bool rolledBack = autoAfter && now == committed;
                    if (!undone && !rolledBack)
                    {
                        bad("half-done", text);
                    }
                    if (autoAfter && open)
                    {
                        c.count("rolled_back_by_sqlite");
                        started.assign(started.size(), false);
                        visible = committed;
                    }
                    else if (!autoAfter && !open)
                    {
                        bad("transaction-left-open", text);
                    }
                    open = !autoAfter;
                    continue;
                }
            }
            else
            {
                if (got != want)
                {
                    bad(want == 0 ? "refused" : "accepted", vh::str(text, " ", message));
                    return;
                }
                c.count(got == 0 ? "fine" : "refused");
            }
            // the effect
            if (got == 0)
            {
                if (willStart)
                {
                    if (didStart != !open || autoBefore != !open)
                    {
                        bad("start-result", vh::str(didStart));
                    }
                    started.push_back(didStart);
                    open = true;
                }
                if (ends)
                {
                    if (endArg)
                    {
                        open = false;
                        committed = visible;
                        c.count("commits");
                    }
                    else
                    {
                        c.count("ends_of_others");
                    }
                    if (!started.empty())
                    {
                        started.pop_back();
                    }
                    if (endArg)
                    {
                        started.assign(started.size(), false);
                    }
                }
                if (q == "ROLLBACK")
                {
                    open = false;
                    started.assign(started.size(), false);
                    c.count("rollbacks");
                }
                visible = after;
                if (!open)
                {
                    committed = visible;
                }
            }
            if (autoAfter == open)
            {
                bad("transaction-state", text);
                return;
            }
            if (now != visible)
            {
                bad("visible", text);
                return;
            }
            if (r.chance(15))
            {
                // what another connection sees
                Db look(c, file.c_str());
                if (readTable(look.db) != committed)
                {
                    bad("committed", text);
                    return;
                }
                c.count("committed_checks");
            }
        }
        c.distinct(vh::hashStr(log));
    }
    c.check(closed == 1, "history/closed", "internal connection has not been closed");
    {
        Db look(c, file.c_str());
        c.check(readTable(look.db) == committed, "history/persistent", "what was committed is not what the file contains");
    }
    std::remove(file.c_str());
    c.check(sqlite3_memory_used() == usedBefore, "history/memory", vh::str(sqlite3_memory_used() - usedBefore, " bytes kept"));
}

// table schemas
static void schemas(vh::Case& c)
{
    vh::Rng& r = c.rng;
    const auto usedBefore = sqlite3_memory_used();
    {
        int closed = 0;
        SqliteConnection con(Closed::open(":memory:", &closed));
        sqlite3* db = con.getConnection();
        const bool attached = r.flip();
        if (attached)
        {
            con.executeUpdate("ATTACH ':memory:' AS other");
        }
        const std::allocator<uint8_t> alloc;
        struct Col
        {
            std::string name;
            std::string type;
            bool notNull;
            bool key;
            bool hidden;
        };
        struct Tab
        {
            std::string name;
            std::string db;
            std::vector<Col> cols;
            size_t rows = 0;
        };
        std::vector<Tab> tabs;
        const size_t n = 1 + r.below(3);
        for (size_t t = 0; t < n; ++t)
        {
            Tab tab;
            tab.name = vh::str(r.flip() ? "Table" : "t_", t);
            tab.db = attached && r.flip() ? "other" : "";
            const size_t m = 1 + r.below(8);
            const bool withoutRowid = r.chance(30);
            std::vector<size_t> keys;
            std::string q = "CREATE TABLE " + (tab.db.empty() ? "" : tab.db + ".") + tab.name + "(";
            for (size_t i = 0; i < m; ++i)
            {
                static const char* types[] = {"INTEGER", "REAL", "TEXT", "BLOB", "", "VARCHAR(10)", "integer"};
                Col col{vh::str(r.flip() ? "col" : "Field_", i), r.pick(types), r.chance(30), false, false};
                q += (i != 0 ? ", " : "") + col.name + (col.type.empty() ? "" : " " + col.type) + (col.notNull ? " NOT NULL" : "");
                col.hidden = i != 0 && i + 1 == m && r.chance(20);
                if (col.hidden)
                {
                    q += vh::str(" GENERATED ALWAYS AS (", tab.cols[0].name, ") VIRTUAL");
                }
                else if (r.chance(25))
                {
                    keys.push_back(i);
                }
                tab.cols.push_back(col);
            }
            if (withoutRowid && keys.empty())
            {
                keys.push_back(0);
            }
            if (!keys.empty())
            {
                q += ", PRIMARY KEY(";
                for (size_t i = 0; i < keys.size(); ++i)
                {
                    q += (i != 0 ? ", " : "") + tab.cols[keys[i]].name;
                    tab.cols[keys[i]].key = true;
                    if (withoutRowid)
                    {
                        tab.cols[keys[i]].notNull = true;
                    }
                }
                q += ")";
            }
            q += withoutRowid ? ") WITHOUT ROWID" : ")";
            con.executeUpdate(q);
            tab.rows = r.below(5);
            for (size_t i = 0; i < tab.rows; ++i)
            {
                std::string v = "INSERT INTO " + (tab.db.empty() ? "" : tab.db + ".") + tab.name + " VALUES(";
                size_t k = 0;
                for (const Col& col : tab.cols)
                {
                    if (!col.hidden)
                    {
                        v += (k++ != 0 ? ", " : "") + vh::str(i * 10 + k);
                    }
                }
                con.executeUpdate(v + ")");
            }
            tabs.push_back(tab);
        }
        if (r.chance(20))
        {
            sqlite3_exec(db, "PRAGMA short_column_names=ON", nullptr, nullptr, nullptr);
        }
        for (const Tab& tab : tabs)
        {
            const std::string name = tab.name;
            c.check(Util::getNumberOfTableRows(con, tab.db, name, alloc) == tab.rows, "schema/rows", name);
            Util::TableSchema schema(alloc);
            Util::getTableSchema(con, tab.db, name, schema, alloc);
            size_t visible = 0;
            for (const Col& col : tab.cols)
            {
                const auto it = schema.find(col.name);
                if (col.hidden)
                {
                    c.check(it == schema.end(), "schema/hidden", col.name);
                }
                else
                {
                    ++visible;
                    c.check(it != schema.end(), "schema/missing", col.name);
                    if (it != schema.end())
                    {
                        c.check(it->second.name == col.name, "schema/name", col.name);
                        std::string type = col.type;
                        if (type == "integer")
                        {
                            type = it->second.type == "INTEGER" ? "INTEGER" : type;
                        }
                        c.check(it->second.type == type, "schema/type", vh::str(col.name, " ", it->second.type, " for ", col.type));
                        c.check(it->second.isNotNull == col.notNull, "schema/not-null", col.name);
                        c.check(it->second.isPrimaryKey == col.key, "schema/primary-key", col.name);
                    }
                }
                c.check(Util::isColumnInTable(con, tab.db, name, col.name, alloc), "schema/column-present", col.name);
                c.check(!Util::isColumnInTable(con, tab.db, name, col.name + "x", alloc), "schema/column-absent", col.name);
                c.count(col.hidden ? "hidden_columns" : "columns");
            }
            c.check(schema.size() == visible, "schema/size", vh::str(schema.size(), " for ", visible));
            c.check(!Util::isColumnInTable(con, tab.db, name, "noSuchColumn", alloc), "schema/column-absent", name);
            c.check(!Util::isColumnInTable(con, tab.db, "noSuchTable", tab.cols[0].name, alloc), "schema/table-absent", name);
            if (attached)
            {
                // the same table in the other database
                const std::string wrong = tab.db.empty() ? "other" : "main";
                c.check(outcome(c, [&]() { (void)Util::getNumberOfTableRows(con, wrong, name, alloc); }) == 1, "schema/other-database", name);
                c.check(!Util::isColumnInTable(con, wrong, name, tab.cols[0].name, alloc), "schema/other-database", name);
                Util::TableSchema none(alloc);
                Util::getTableSchema(con, wrong, name, none, alloc);
                c.check(none.empty(), "schema/other-database", name);
            }
            c.check(sqlite3_next_stmt(db, nullptr) == nullptr, "schema/statement-left", name);
            c.distinct(vh::mix(vh::hashStr(name), tab.cols.size() * 8 + tab.rows));
        }
        c.check(outcome(c, [&]() { (void)Util::getNumberOfTableRows(con, "", "noSuchTable", alloc); }) == 1, "schema/no-table", "not refused");
        Util::TableSchema none(alloc);
        c.check(outcome(c, [&]() { Util::getTableSchema(con, "nosuchdb", tabs[0].name, none, alloc); }) <= 1 && none.empty(), "schema/no-database", "filled");
        // interrupted queries
        for (int k = 0; k < 3; ++k)
        {
            int steps = static_cast<int>(r.below(12));
            sqlite3_progress_handler(
                    db, 1, [](void* p) { return --*static_cast<int*>(p) < 0 ? 1 : 0; }, &steps);
            Util::TableSchema part(alloc);
            size_t rows = 0;
            const bool count = r.flip();
            const int got = outcome(c, [&]() {
                if (count)
                {
                    rows = Util::getNumberOfTableRows(con, tabs[0].db, tabs[0].name, alloc);
                }
                else
                {
                    Util::getTableSchema(con, tabs[0].db, tabs[0].name, part, alloc);
                }
            });
            sqlite3_progress_handler(db, 0, nullptr, nullptr);
            c.check(got <= 1, "schema/other-exception", "");
            if (got == 0)
            {
                size_t visible = 0;
                for (const Col& col : tabs[0].cols)
                {
                    visible += col.hidden ? 0 : 1;
                }
                c.check(count ? rows == tabs[0].rows : part.size() == visible, "schema/interrupted-unnoticed", vh::str(rows, " ", part.size()));
            }
            c.count(got == 0 ? "not_interrupted" : "interrupted");
            c.check(sqlite3_next_stmt(db, nullptr) == nullptr, "schema/statement-left", "interrupted");
        }
        c.count("schemas");
    }
    c.check(sqlite3_memory_used() == usedBefore, "schema/memory", "memory kept");
}

// names of types of values
static void names(vh::Case& c)
{
    Db db(c);
    Stmt s(db.db, "SELECT 1, 1.5, 'x', x'00', NULL");
    sqlite3_step(s.s);
    static const char* want[] = {"INTEGER", "REAL", "TEXT", "BLOB", "NULL"};
    for (int i = 0; i < 5; ++i)
    {
        c.check(std::string_view(Util::sqliteColumnTypeName(sqlite3_column_type(s.s, i))) == want[i], "type-name", want[i]);
    }
    for (int k = -1; k < 60; ++k)
    {
        const SqliteException e = [&]() {
            SqliteException x("text ");
            x << zserio::SqliteErrorCode(k);
            return x;
        }();
        c.check(std::string(e.what()) == std::string("text ") + sqlite3_errstr(k), "error-text", vh::str(k));
    }
}

} // namespace c23

VH_SECTION(values_std, 300, 20000)
{
    c23::values_std(c);
}
VH_SECTION(values_pmr, 150, 10000)
{
    c23::values_pmr(c);
}
VH_SECTION(values_ppmr, 150, 10000)
{
    c23::values_ppmr(c);
}
VH_SECTION(objects_std, 500, 40000)
{
    c23::objects_std(c);
}
VH_SECTION(objects_pmr, 250, 20000)
{
    c23::objects_pmr(c);
}
VH_SECTION(objects_ppmr, 250, 20000)
{
    c23::objects_ppmr(c);
}
VH_SECTION(owners, 400, 40000)
{
    c23::owners(c);
}
VH_SECTION(histories, 1000, 80000)
{
    c23::history(c, false);
}
VH_SECTION(memory, 600, 50000)
{
    c23::history(c, true);
}
VH_SECTION(schemas, 500, 50000)
{
    c23::schemas(c);
}
VH_SECTION(names, 3, 3)
{
    c23::names(c);
}
