// Conformance driver for the statement class (property C03).
#include "SQLite.hpp"
#include "vlog.hpp"
#include <unistd.h>
using namespace vlog;

static char const *text(std::string const &q) {
    if (q == "ins") return "insert into t values(?1,?2,?3,?4);";
    if (q == "sel") return "select * from t order by n desc, id;";
    if (q == "ge") return "select * from t where n >= ?1 order by n, id desc;";
    if (q == "del") return "delete from t where n = ?1;";
    if (q == "cnt") return "select count(*) from t;";
    if (q == "uni") return "insert into u values(?1);";
    return "this is not sql";
}

struct World {
    std::unique_ptr<sqlite::handle> db;
    std::unique_ptr<sqlite::statement> st;
    std::string cur, sqlname;
    int next_id = 0, next_u = 0;
    std::mt19937 *g = nullptr;

    void fresh() {
        st.reset();
        db.reset(new sqlite::handle(":memory:"));
        sqlite::statement s(*db);
        s.exec("create table t(id not null, n not null, txt not null, x not null); create table u(k integer primary key not null) without rowid;");
        st.reset(new sqlite::statement(*db));
        cur = sqlname = "";
        emit(J("New"));
    }
    void again() {
        st.reset(new sqlite::statement(*db));
        cur = sqlname = "";
        emit(J("Fresh"));
    }
    std::string row() {
        if (cur == "cnt") return "[" + std::to_string(st->get<int>(0)) + "]";
        // the columns keep the kind of value they were given
        for (int k : {0, 1})
            if (st->get<std::string>(k) != std::to_string(st->get<int>(k))) return "[\"no integer\"]";
        std::string x = dbl(st->get<double>(3));
        if (st->get<std::string>(3).find_first_of(".e") == std::string::npos) x = "no real number";
        return "[" + std::to_string(st->get<int>(0)) + "," + std::to_string(st->get<int>(1)) + "," +
            esc(st->get<std::string>(2)) + "," + esc(x) + "]";
    }
    template <class F>
    std::string guard(F f) {
        try {
            f();
            return "ok";
        } catch (sqlite::error const &) {
            return "err";
        } catch (std::exception const &e) {
            return std::string("other: ") + e.what();
        }
    }
    void set(std::string const &q) {
        if (g && (*g)() % 2) {
            std::stringstream ss;
            ss << text(q);
            st->set(ss);
        } else
            st->set(std::string(text(q)));
        sqlname = q;
        emit(J("Set").str("q", q));
    }
    void prepare() {
        auto o = guard([&] { st->prepare(); });
        cur = sqlname;
        emit(J("Prepare").str("o", o));
    }
    std::string txt(int v) {
        static char const *t[] = {"", "Hello World!", "O'Brien; drop table t", "\xc3\xa4\xe2\x82\xac",
                                  "a longer text that does not fit into a small string buffer", " "};
        return t[v % 6] + (v >= 6 ? std::to_string(v) : std::string());
    }
    double real(int v) {
        static double t[] = {0.1, -1e300, 5e-324, 1.0 / 3.0, 123456789.123456789, 0.0};
        return v < 6 ? t[v] : v / 7.0;
    }
    void bind(int i, int v) {
        J j("Bind");
        j.num("i", i);
        std::string o;
        if (i == 3) {
            std::string s = txt(v);
            j.str("v", s);
            o = guard([&] { st->bind(i, std::move(s)); });
        } else if (i == 4) {
            j.str("v", dbl(real(v)));
            o = guard([&] { st->bind(i, real(v)); });
        } else {
            if (i == 1 && cur == "ins") v = ++next_id;
            j.num("v", v);
            o = guard([&] { st->bind(i, v); });
        }
        emit(j.str("o", o));
    }
    std::string step() {
        std::string o, r;
        try {
            o = st->step() ? "row" : "done";
        } catch (sqlite::error const &) {
            o = "err";
        } catch (std::exception const &e) {
            o = std::string("other: ") + e.what();
        }
        J j("Step");
        j.str("o", o);
        if (o == "row") j.raw("row", row());
        emit(j);
        return o;
    }
    void reset() { emit(J("Reset").str("o", guard([&] { st->reset(); }))); }
    void execins(int n) {
        int id = ++next_id;
        std::string s = "insert into t values(" + std::to_string(id) + "," + std::to_string(n) +
            ",'x" + std::to_string(n) + "',0.25);";
        std::string o = guard([&] { st->exec(s); });
        sqlname = "ins*";
        emit(J("ExecIns")
                 .raw("row", "[" + std::to_string(id) + "," + std::to_string(n) + ",\"x" +
                          std::to_string(n) + "\",\"0.25\"]")
                 .str("o", o));
    }
    void execbad() {
        emit(J("ExecBad").str("o", guard([&] { st->exec("neither is this"); })));
        sqlname = "bad";
    }
    void foreach () {
        std::vector<std::string> rows;
        auto o = guard([&] {
            for (auto &r : *st) {
                (void)r;
                rows.push_back(row());
                if (rows.size() > 10000) break;
            }
        });
        emit(J("ForEach").str("o", o).raw("rows", arrf(rows, [](std::string const &s) { return s; })));
    }
    // Preparing a text that exec() stored needs no parameters: avoid, as the spec knows it as "ins"
    bool prepable() { return sqlname != "ins*"; }
};

int main(int argc, char **argv) {
    std::string mode = argv[1];
    std::mt19937 g(std::stoul(argv[2]));
    World w;
    w.g = &g;
    if (mode == "script") {
        std::string line;
        while (std::getline(std::cin, line)) {
            std::istringstream is(line);
            std::string o, q;
            int a = 0, b = 0;
            is >> o;
            if (o == "new") w.fresh();
            if (o == "set") is >> q, w.set(q);
            if (o == "prepare" && w.prepable()) w.prepare();
            if (o == "bind") is >> a >> b, w.bind(a, b);
            if (o == "step") w.step();
            if (o == "reset") w.reset();
            if (o == "execins") is >> a, w.execins(a);
            if (o == "execbad") w.execbad();
            if (o == "foreach") w.foreach ();
        }
    } else if (mode == "sizes") { // every result size, delivered in every way
        int n = std::stoi(argv[3]);
        for (int size = 0; size <= n; ++size) {
            w.fresh();
            w.set("ins");
            w.prepare();
            for (int k = 0; k < size; ++k) {
                if (k) w.reset();
                w.bind(1, 0);
                w.bind(2, g() % 5);
                w.bind(3, g() % 12);
                w.bind(4, g() % 12);
                w.step();
            }
            for (std::string q : {"sel", "ge", "cnt"}) {
                for (int pre = 0; pre <= 3; ++pre) {
                    if (pre == 3) w.again();
                    else w.reset();
                    w.set(q);
                    w.prepare();
                    if (q == "ge") w.bind(1, g() % 6);
                    if (pre < 2) {
                        for (int i = 0; i < pre * 2; ++i)
                            if (w.step() != "row") break;
                        w.foreach ();
                    } else {
                        while (w.step() == "row") {
                        }
                    }
                    w.step();
                    w.reset();
                    w.foreach ();
                }
            }
        }
    } else {
        int n = std::stoi(argv[3]), len = std::stoi(argv[4]);
        char const *qs[] = {"ins", "sel", "ge", "del", "cnt", "uni", "bad"};
        for (int r = 0; r < n; ++r) {
            w.fresh();
            for (int i = 0; i < len; ++i) {
                switch (g() % 12) {
                case 0: w.set(qs[g() % 7]); break;
                case 1: { // a complete well-formed use
                    std::string q = qs[g() % 6];
                    w.reset();
                    w.set(q);
                    w.prepare();
                    int np = q == "ins" ? 4 : q == "sel" || q == "cnt" ? 0 : 1;
                    for (int p = 1; p <= np; ++p) w.bind(p, q == "uni" ? ++w.next_u : g() % 7);
                    break;
                }
                case 2: if (w.prepable()) w.prepare(); break;
                case 3: w.bind(1 + g() % 5, g() % 7); break;
                case 4: w.reset(); break;
                case 5: w.execins(g() % 7); break;
                case 6: if (g() % 4 == 0) w.execbad(); break;
                case 7: w.foreach (); break;
                case 8: if (g() % 6 == 0) w.again(); break;
                default: w.step();
                }
            }
        }
    }
    return 0;
}
