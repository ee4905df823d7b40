// Conformance driver for connections sharing a database file (property C04): a coordinator sends
// single calls to worker processes and logs calls and returns.
#include "SQLite.hpp"
#include "vlog.hpp"
#include <chrono>
#include <cstring>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vlog;
using clk = std::chrono::steady_clock;

static std::string values(sqlite::statement &s, bool fetched) {
    std::string r = "[";
    bool first = true;
    bool more = fetched ? true : s.step();
    for (; more; more = s.step()) {
        r += (first ? "" : ",") + std::to_string(s.get<int>(0));
        first = false;
    }
    return r + "]";
}

static void worker(std::string const &file, int in, int out, int variant) {
    FILE *f = fdopen(in, "r");
    std::unique_ptr<sqlite::handle> db;
    if (variant == 0) {
        db = std::make_unique<sqlite::handle>(file);
    } else {
        alignas(sqlite::handle) static char room[sizeof(sqlite::handle)];
        auto *a = new (room) sqlite::handle(file);
        if (variant == 1) { // move construction, the original goes away
            db = std::make_unique<sqlite::handle>(std::move(*a));
        } else { // move assignment over another connection
            db = std::make_unique<sqlite::handle>(":memory:");
            *db = std::move(*a);
        }
        a->~handle();
        memset(room, 0, sizeof room);
    }
    std::unique_ptr<sqlite::statement> hold;
    bool hold_row = false;
    char op;
    int v;
    while (fscanf(f, " %c %d", &op, &v) == 2) {
        std::string o = "ok", r = "[]";
        try {
            sqlite::statement s(*db);
            switch (op) {
            case 'b': s.exec("begin immediate;"); break;
            case 'd': s.exec("begin transaction;"); break;
            case 'c': s.exec("commit;"); break;
            case 'r': s.exec("rollback;"); break;
            case 'i':
                if (v % 2) {
                    s.exec("insert into t values(" + std::to_string(v) + ");");
                } else {
                    s.set("insert into t values(?1);");
                    s.prepare();
                    s.bind(1, v);
                    s.step();
                }
                break;
            case 'q':
                s.set("select v from t;");
                s.prepare();
                r = values(s, false);
                break;
            case 'h':
                hold.reset(new sqlite::statement(*db, "select v from t;"));
                hold->prepare();
                hold_row = hold->step();
                break;
            case 'f':
                r = hold_row ? values(*hold, true) : "[]";
                hold.reset();
                break;
            }
        } catch (std::exception const &e) {
            o = e.what();
        }
        std::string line = o + "\n" + r + "\n";
        if (write(out, line.data(), line.size()) < 0) break;
    }
    _exit(0);
}

struct Proc {
    pid_t pid = 0;
    int to = -1, from = -1;
    bool busy = false, held = false;
    std::string tx = "none", op, buf;
};

struct Coord {
    std::string dir, file;
    std::vector<Proc> ps;
    int nextv = 0, nkill = 0;
    explicit Coord(std::string d) : dir(std::move(d)) {}

    void spawn(int i, int variant) {
        int a[2], b[2];
        if (pipe(a) || pipe(b)) _exit(3);
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            for (auto &q : ps)
                if (q.to >= 0) close(q.to), close(q.from);
            close(a[1]);
            close(b[0]);
            worker(file, a[0], b[1], variant);
        }
        close(a[0]);
        close(b[1]);
        ps[i] = Proc();
        ps[i].pid = p;
        ps[i].to = a[1];
        ps[i].from = b[0];
    }
    void start(int n) {
        file = dir + "/tx.db";
        unlink(file.c_str());
        unlink((file + "-journal").c_str());
        {
            sqlite::handle db(file);
            sqlite::statement s(db);
            s.exec("create table t(v integer);");
        }
        emit(J("Reset"));
        ps.assign(n, Proc());
        for (int i = 0; i < n; ++i) spawn(i, i % 3);
    }
    void stop() {
        for (auto &p : ps) {
            close(p.to);
            close(p.from);
            kill(p.pid, SIGKILL);
            waitpid(p.pid, nullptr, 0);
        }
    }
    void send(int i, std::string const &op, int v = 0) {
        J j("Call");
        j.num("p", i).str("op", op);
        if (op == "insert") j.num("v", v);
        emit(j);
        std::string m = std::string(1, op[0]) + " " + std::to_string(v) + "\n";
        ps[i].busy = true;
        ps[i].op = op;
        if (write(ps[i].to, m.data(), m.size()) < 0) _exit(4);
    }
    // collect replies for ms milliseconds, or until process `until` is idle
    void collect(int ms, int until = -1) {
        auto end = clk::now() + std::chrono::milliseconds(ms);
        while (true) {
            if (until >= 0 && !ps[until].busy) return;
            auto left = std::chrono::duration_cast<std::chrono::milliseconds>(end - clk::now()).count();
            if (left < 0) return;
            std::vector<pollfd> f;
            for (auto &p : ps) f.push_back({p.from, POLLIN, 0});
            if (poll(f.data(), f.size(), left) <= 0) continue;
            for (size_t i = 0; i < ps.size(); ++i)
                if (f[i].revents) {
                    char b[65536];
                    ssize_t k = read(ps[i].from, b, sizeof b);
                    if (k <= 0) {
                        emit(J("Ret").num("p", i).str("o", "worker died").raw("r", "[]"));
                        fflush(stdout);
                        stop();
                        _exit(0);
                    }
                    ps[i].buf.append(b, k);
                    auto e1 = ps[i].buf.find('\n');
                    auto e2 = e1 == std::string::npos ? e1 : ps[i].buf.find('\n', e1 + 1);
                    if (e2 == std::string::npos) continue;
                    reply(i, ps[i].buf.substr(0, e1), ps[i].buf.substr(e1 + 1, e2 - e1 - 1));
                    ps[i].buf.clear();
                }
        }
    }
    void reply(int i, std::string const &o, std::string const &r) {
        emit(J("Ret").num("p", i).str("o", o).raw("r", r));
        Proc &p = ps[i];
        p.busy = false;
        if (p.op == "begin") p.tx = "write";
        if (p.op == "defer") p.tx = "deferred";
        if (p.op == "insert" && p.tx == "deferred") p.tx = "write";
        if (p.op == "commit" || p.op == "rollback") p.tx = "none";
        if (p.op == "hold") p.held = true;
        if (p.op == "finish") p.held = false;
    }
    void killp(int i) {
        kill(ps[i].pid, SIGKILL);
        waitpid(ps[i].pid, nullptr, 0);
        close(ps[i].to);
        close(ps[i].from);
        emit(J("Kill").num("p", i));
        spawn(i, ++nkill % 3);
    }
    void act(int i, std::mt19937 &g) {
        Proc &p = ps[i];
        if (p.busy) {
            if (g() % 12 == 0) killp(i);
            return;
        }
        int x = g() % 16;
        if (x == 0) return killp(i);
        if (p.held) return send(i, "finish");
        if (p.tx == "none") {
            if (x < 5) return send(i, "begin");
            if (x < 8) return send(i, "defer");
            if (x < 10) return send(i, "insert", ++nextv);
            if (x < 13) return send(i, "hold");
            return send(i, "query");
        }
        if (p.tx == "deferred") return send(i, "insert", ++nextv);
        if (x < 8) return send(i, "insert", ++nextv);
        if (x < 12) return send(i, "commit");
        if (x < 13) return send(i, "rollback");
        return send(i, "query");
    }
    void finish() {
        // those holding the lock or an open read first, so that the others can proceed
        for (int round = 0; round < 200; ++round) {
            bool any = false;
            for (int i = 0; i < (int)ps.size(); ++i) {
                if (ps[i].busy) {
                    any = true;
                    continue;
                }
                if (ps[i].held) send(i, "finish"), any = true;
                else if (ps[i].tx == "write") send(i, "commit"), any = true;
                else if (ps[i].tx == "deferred") killp(i);
            }
            if (!any) break;
            collect(60);
        }
        send(0, "query");
        collect(5000, 0);
        stop();
    }
};

int main(int argc, char **argv) {
    signal(SIGPIPE, SIG_IGN);
    std::string mode = argv[1];
    std::mt19937 g(std::stoul(argv[2]));
    int n = std::stoi(argv[3]);
    Coord c(argv[4]);
    if (mode == "rand") {
        for (int r = 0; r < n; ++r) {
            c.start(3);
            for (int i = 0; i < 30; ++i) {
                int p = g() % 3;
                c.act(p, g);
                c.collect(g() % 3 == 0 ? 1 : 15, p);
            }
            c.finish();
        }
    } else { // n milliseconds of waiting for a writer, in each kind of connection and call
        c.start(4);
        c.send(3, "begin");
        c.collect(2000, 3);
        c.send(3, "insert", ++c.nextv);
        c.collect(2000, 3);
        c.send(0, "begin");
        c.send(1, "insert", ++c.nextv);
        c.send(2, "defer");
        c.collect(2000, 2);
        c.send(2, "insert", ++c.nextv);
        c.collect(n);
        c.send(3, "commit");
        c.collect(3000, 3);
        for (int i = 0; i < 200 && c.ps[0].busy; ++i) {
            c.collect(20);
            if (!c.ps[2].busy && c.ps[2].tx == "write") c.send(2, "commit");
        }
        c.finish();
        // a reader keeps a writer waiting
        c.start(3);
        c.send(0, "insert", ++c.nextv);
        c.collect(2000, 0);
        c.send(0, "hold");
        c.collect(2000, 0);
        c.send(1, "begin");
        c.collect(2000, 1);
        c.send(1, "insert", ++c.nextv);
        c.collect(2000, 1);
        c.send(1, "commit");
        c.collect(50, 1);
        c.send(2, "query");
        c.collect(n / 2);
        c.send(0, "finish");
        c.collect(3000, 0);
        c.finish();
    }
    return 0;
}
