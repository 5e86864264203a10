// The SQLite wrapper against a reference state machine, on in-memory databases and one scratch file.
#include "common.hpp"
#include "SQLite.hpp"
#include <cstring>
#include <thread>
#include <unistd.h>
using namespace vf;
struct Row {
    std::string t;
    int i;
    double d;
    bool operator==(const Row &o) const { return t == o.t && i == o.i && d == o.d; }
};
static void fill(sqlite::handle &db, const std::vector<Row> &rows) {
    sqlite::statement s(db);
    s.exec("create table t (id integer primary key, t text, i integer, d real);");
    s.set("insert into t (t,i,d) values (?1,?2,?3);");
    s.prepare();
    for (auto &r : rows) {
        s.reset();
        if (r.i & 1) s.bind(1, r.t);
        else s.bind(1, std::string(r.t)); // a temporary
        s.bind(2, r.i);
        s.bind(3, r.d);
        s.step();
    }
}
static Row get(sqlite::statement &s) { return {s.get<std::string>(0), s.get<int>(1), s.get<double>(2)}; }
static std::string show(const std::vector<Row> &v) {
    std::string s = str(v.size(), " rows:");
    for (auto &r : v) s += str(" ", r.t, ",", r.i, ",", r.d);
    return s;
}
void vf_search(uint64_t seed, int n) {
    Rng r(seed);
    for (int c = 0; c < n; ++c) {
        std::vector<Row> rows;
        int k = c < 6 ? c : r.i(0, 12);
        for (int j = 0; j < k; ++j) {
            std::string t;
            int l = r.i(0, 3) ? r.i(0, 6) : r.i(20, 60);
            for (int q = 0; q < l; ++q) t += r.pick<std::string>({"a", "'", "\"", " ", "\xc3\xa9", "%", "?1", ";"});
            rows.push_back({t, r.i(-2147483647, 2147483647), r.u(-1, 1) * std::pow(10., r.i(-30, 30))});
        }
        auto what = show(rows);
        sqlite::handle db(":memory:");
        fill(db, rows);
        sqlite::statement s(db, "select t,i,d from t order by id;");
        try {
            s.prepare();
            std::vector<Row> a;
            while (s.step()) a.push_back(get(s));
            check(a == rows, "stepping", "step", what);
            bool thrown = false;
            try {
                s.step();
            } catch (sqlite::error &) { thrown = true; }
            check(thrown, "stepping", "step-after-end", what);
            s.reset();
            std::vector<Row> b;
            for (auto &&x : s) {
                b.push_back(get(x));
                if (b.size() > rows.size() + 2) break;
            }
            check(b == rows, "range-for", "range-for", what + " visited as " + show(b));
            // a second query on the same statement
            s.reset();
            s.set("select t,i,d from t where id > ?1 order by id;");
            thrown = false;
            try {
                s.step();
            } catch (sqlite::error &) { thrown = true; }
            check(thrown, "stepping", "step-unprepared", what);
            s.prepare();
            int from = r.i(0, k);
            s.bind(1, from);
            b.clear();
            for (auto &&x : s) {
                b.push_back(get(x));
                if (b.size() > rows.size() + 2) break;
            }
            check(b == std::vector<Row>(rows.begin() + from, rows.end()), "range-for", "range-for-bound", str(what, " from ", from, " visited as ", show(b)));
        } catch (sqlite::error &e) {
            fail("throws", str(what, ": ", e.what()));
        }
        // errors surface
        int bad = 0;
        auto expect = [&](const char *name, std::function<void()> f) {
            try {
                f();
                fail(str("no-error-", name), str(name, " with ", what));
            } catch (sqlite::error &) { ++bad; }
            hit("errors", str(name, what));
        };
        sqlite::statement e(db, "selct");
        expect("prepare", [&] { e.prepare(); });
        expect("exec", [&] { e.exec("insert into nothing values (1);"); });
        expect("bind", [&] {
            sqlite::statement x(db, "select ?1;");
            x.prepare();
            x.bind(2, 1);
        });
        expect("constraint", [&] {
            sqlite::statement x(db, "insert into t (id) values (77);");
            x.prepare();
            x.step();
            x.reset();
            x.step();
        });
        expect("open", [&] { sqlite::handle h("/nonexistent-directory/file.db"); });
    }
    // moved handles keep the connection, and their busy handler belongs to the living object: a writer that has to
    // wait for another connection waits instead of failing or using a dead object
    const char *sc = std::getenv("VF_SCRATCH");
    std::string file = std::string(sc ? sc : "/tmp") + "/sq" + std::to_string(getpid()) + ".db";
    unlink(file.c_str());
    {
        sqlite::handle a(file);
        sqlite::statement(a).exec("create table t (i integer);");
        for (int mode = 0; mode < 2; ++mode) {
            auto first = std::unique_ptr<sqlite::handle>(new sqlite::handle(file));
            std::unique_ptr<sqlite::handle> b;
            if (mode == 0) b.reset(new sqlite::handle(std::move(*first)));
            else {
                b.reset(new sqlite::handle(":memory:"));
                *b = std::move(*first);
            }
            std::memset(static_cast<void *>(first.get()), 0, sizeof(sqlite::handle));
            sqlite::statement(a).exec("begin immediate;");
            sqlite::statement(a).exec("insert into t values (1);");
            std::string what = mode ? "assigned handle" : "moved handle", err;
            std::thread w([&] {
                try {
                    sqlite::statement(*b).exec("insert into t values (2);");
                } catch (std::exception &x) { err = x.what(); }
            });
            std::this_thread::sleep_for(std::chrono::milliseconds(60));
            sqlite::statement(a).exec("commit;");
            w.join();
            check(err.empty(), "waiting", "busy", what + " " + err);
            (void)first.release(); // its memory was wiped
        }
        sqlite::statement s(a, "select count(*) from t;");
        s.prepare();
        s.step();
        check(s.get<int>(0) == 4, "waiting", "busy-rows", str(s.get<int>(0)));
    }
    unlink(file.c_str());
}
void vf_replay(const std::string &, const KV &) { vf_search(1, 20); }
