// Conformance driver for quantum-defect requests (property C02). Commands on stdin:
//   content FILE            log the JSON description of a database (a line of the given file)
//   write SRC DST JSONFILE  copy SRC over DST (DST "-": the built-in one) and log its contents
//   drop DST                remove the file
//   q PATH S N L J2         one request in the main thread ("-" is the built-in database)
//   par K  (then K lines)   K requests from K threads at once
//   forced (then 2 lines)   first request suspended at each call into SQLite while the second runs
#include "QuantumDefect.hpp"
#include "Constants.hpp"
#include "vlog.hpp"
#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <dlfcn.h>
#include <thread>
#include <unistd.h>
using namespace vlog;

struct Pause {
    std::mutex m;
    std::condition_variable cv;
    int countdown = 0;
    bool paused = false, resume = false, fired = false;
};
static thread_local Pause *my_pause = nullptr;
static void hook() {
    Pause *p = my_pause;
    if (!p) return;
    std::unique_lock<std::mutex> l(p->m);
    if (p->fired || --p->countdown > 0) return;
    p->fired = p->paused = true;
    p->cv.notify_all();
    p->cv.wait(l, [&] { return p->resume; });
}
extern "C" int sqlite3_step(sqlite3_stmt *s) {
    static auto real = reinterpret_cast<int (*)(sqlite3_stmt *)>(dlsym(RTLD_NEXT, "sqlite3_step"));
    hook();
    return real(s);
}
extern "C" int sqlite3_prepare_v2(sqlite3 *db, char const *z, int n, sqlite3_stmt **s, char const **t) {
    static auto real = reinterpret_cast<int (*)(sqlite3 *, char const *, int, sqlite3_stmt **,
                                                char const **)>(dlsym(RTLD_NEXT, "sqlite3_prepare_v2"));
    hook();
    return real(db, z, n, s, t);
}
extern "C" int sqlite3_open_v2(char const *f, sqlite3 **db, int fl, char const *v) {
    static auto real = reinterpret_cast<int (*)(char const *, sqlite3 **, int, char const *)>(
        dlsym(RTLD_NEXT, "sqlite3_open_v2"));
    hook();
    return real(f, db, fl, v);
}
extern "C" int sqlite3_finalize(sqlite3_stmt *s) {
    static auto real = reinterpret_cast<int (*)(sqlite3_stmt *)>(dlsym(RTLD_NEXT, "sqlite3_finalize"));
    int r = real(s);
    hook();
    return r;
}

static std::string dir;
struct Req {
    std::string path, s;
    int n, l, j2;
};
static void ask(int t, Req const &r) {
    emit(J("Ask").num("t", t).str("path", r.path).str("s", r.s).num("n", r.n).num("l", r.l).num("j2", r.j2));
    J j("Reply");
    j.num("t", t);
    try {
        auto log = [&](QuantumDefect const &q) {
            std::vector<std::string> v;
            for (double x : {q.ac, double(q.Z), q.a1, q.a2, q.a3, q.a4, q.rc}) v.push_back(esc(dbl(x)));
            double ry = -2 * q.energy * q.nstar * q.nstar / au2GHz * 109737.31568525;
            double en, ns;
            if (r.path == "-") {
                en = energy_level(r.s, r.n, r.l, r.j2 * 0.5);
                ns = nstar(r.s, r.n, r.l, r.j2 * 0.5);
            } else {
                en = energy_level(r.s, r.n, r.l, r.j2 * 0.5, dir + r.path);
                ns = nstar(r.s, r.n, r.l, r.j2 * 0.5, dir + r.path);
            }
            bool same = en == q.energy && ns == q.nstar && q.n == r.n && q.l == r.l &&
                q.j == r.j2 * 0.5 && q.species == r.s;
            auto big = [](double x) { return std::abs(x) < 2e9 ? std::llround(x) : -2000000000LL; };
            j.str("o", same ? "ok" : "inconsistent")
                .raw("v", arrf(v, [](std::string const &s) { return s; }))
                .num("ns", big(q.nstar * 1048576))
                .num("ry", big(ry * 1000));
        };
        if (r.path == "-") {
            QuantumDefect q(r.s, r.n, r.l, r.j2 * 0.5);
            log(q);
        } else {
            QuantumDefect q(r.s, r.n, r.l, r.j2 * 0.5, dir + r.path);
            log(q);
        }
    } catch (std::exception const &e) {
        j.str("o", "refused").str("msg", e.what());
    }
    emit(j);
}
static Req read_req(std::istream &is) {
    Req r;
    std::string q;
    is >> q >> r.path >> r.s >> r.n >> r.l >> r.j2;
    return r;
}

int main(int argc, char **argv) {
    dir = std::string(argv[1]) + "/";
    int wait_ms = std::stoi(argv[2]);
    emit(J("Reset"));
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string op;
        is >> op;
        if (op == "write") {
            std::string src, dst, js;
            is >> src >> dst >> js;
            if (dst != "-") {
                std::ifstream a(dir + src);
                std::ofstream b(dir + dst, std::ios::trunc);
                b << a.rdbuf();
            }
            std::ifstream d(dir + js);
            std::string desc;
            std::getline(d, desc);
            emit("{\"event\":\"Write\",\"path\":" + esc(dst) + "," + desc + "}");
        } else if (op == "drop") {
            std::string dst;
            is >> dst;
            unlink((dir + dst).c_str());
            emit("{\"event\":\"Write\",\"path\":" + esc(dst) + ",\"pot\":[],\"ritz\":[]}");
        } else if (op == "q") {
            std::istringstream again(line);
            ask(0, read_req(again));
        } else if (op == "par") {
            int k;
            is >> k;
            std::vector<Req> rs;
            for (int i = 0; i < k; ++i) {
                std::getline(std::cin, line);
                std::istringstream x(line);
                rs.push_back(read_req(x));
            }
            std::atomic<int> ready{0};
            std::vector<std::thread> ts;
            for (int i = 0; i < k; ++i)
                ts.emplace_back([&, i] {
                    ++ready;
                    while (ready < k) {
                    }
                    ask(i + 1, rs[i]);
                });
            for (auto &t : ts) t.join();
        } else if (op == "forced") {
            Req a, b;
            std::getline(std::cin, line);
            std::istringstream x(line);
            a = read_req(x);
            std::getline(std::cin, line);
            std::istringstream y(line);
            b = read_req(y);
            int stride;
            is >> stride;
            for (int point = 1; point < 60; ++point) {
                // another level each time, so that nobody asked for it before
                Req aa = a, bb = b;
                bool same = a.n == b.n;
                aa.n = a.n + point;
                bb.n = same ? aa.n : b.n + point;
                Pause p;
                p.countdown = point;
                std::atomic<bool> adone{false}, bdone{false};
                std::thread ta([&] {
                    my_pause = &p;
                    ask(1, aa);
                    my_pause = nullptr;
                    std::lock_guard<std::mutex> l(p.m);
                    adone = true;
                    p.cv.notify_all();
                });
                {
                    std::unique_lock<std::mutex> l(p.m);
                    p.cv.wait(l, [&] { return p.paused || adone.load(); });
                }
                bool fired = p.paused;
                std::thread tb([&] {
                    ask(2, bb);
                    bdone = true;
                });
                if (fired) {
                    for (int i = 0; i < wait_ms * 10 && !bdone; ++i)
                        std::this_thread::sleep_for(std::chrono::microseconds(100));
                    std::lock_guard<std::mutex> l(p.m);
                    p.resume = true;
                    p.cv.notify_all();
                }
                ta.join();
                tb.join();
                ask(0, aa);
                ask(0, bb);
                if (!fired) break;
            }
        }
    }
    fflush(stdout);
    _exit(0);
}
