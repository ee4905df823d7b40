// Conformance driver for the stores of matrix elements (property C19).
#include "Basisnames.hpp"
#include "Constants.hpp"
#include "MatrixElementCache.hpp"
#include "MatrixElements.hpp"
#include "State.hpp"
#include "vlog.hpp"
#include <cereal/archives/binary.hpp>
#include <cereal/types/array.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/unordered_map.hpp>
#include <cereal/types/unordered_set.hpp>
#include <cmath>
#include <dlfcn.h>
#include <fcntl.h>
#include <filesystem>
#include <nlohmann/json.hpp>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vlog;
using json = nlohmann::json;
namespace sfs = std::filesystem;

// ---- a process that dies in the middle of a write -------------------------------------------
static int left = -1; // writes until death, -1: none
static bool now() { return left > 0 && --left == 0; }
static void die() {
    kill(getpid(), SIGKILL);
    pause();
}
extern "C" {
ssize_t pwrite64(int fd, void const *b, size_t n, off64_t o) {
    static auto f = reinterpret_cast<ssize_t (*)(int, void const *, size_t, off64_t)>(dlsym(RTLD_NEXT, "pwrite64"));
    if (now()) {
        f(fd, b, n / 2, o);
        die();
    }
    return f(fd, b, n, o);
}
ssize_t pwrite(int fd, void const *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
int ftruncate64(int fd, off64_t n) {
    static auto f = reinterpret_cast<int (*)(int, off64_t)>(dlsym(RTLD_NEXT, "ftruncate64"));
    if (now()) die();
    return f(fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int unlink(char const *p) {
    static auto f = reinterpret_cast<int (*)(char const *)>(dlsym(RTLD_NEXT, "unlink"));
    if (now()) die();
    return f(p);
}
}

static std::string scratch, base;
static json cfg;
struct St {
    std::string sp;
    int n, l, j2, m2;
    StateOne make() const { return StateOne(sp, n, l, j2 / 2.f, m2 / 2.f); }
    StateOneOld old() const { return StateOneOld(sp, n, l, j2 / 2.f, m2 / 2.f); }
};
static std::vector<St> pool;
static St get(json const &s) { return {s["sp"], s["n"], s["l"], s["j2"], s["m2"]}; }
static std::string dirof(int d) { return base + "/d" + std::to_string(d); }
static std::string dbof(int d) { return d == 1 ? "" : scratch + "/" + cfg["dbs"][d - 1].get<std::string>(); }
static std::string csvof(int t) { return scratch + "/" + cfg["csv"][t - 1]["file"].get<std::string>(); }
static void load(MatrixElementCache &c, int t) { c.loadElectricDipoleDB(csvof(t), cfg["csv"][t - 1]["sp"]); }

template <class F>
static std::string answer(F f) {
    try {
        double v = f();
        return dbl(v == 0 ? 0 : v);
    } catch (std::exception const &e) {
        if (getenv("DEBUG")) std::cerr << e.what() << std::endl;
        return "refused";
    }
}
static std::string ask(MatrixElementCache &c, int r) {
    json const &q = cfg["req"][r - 1];
    std::string k = q["k"];
    int kr = q["kr"], ka = q["ka"];
    return answer([&] {
        StateOne a = pool[q["a"].get<int>() - 1].make(), b = pool[q["b"].get<int>() - 1].make();
        if (k == "Dip") return c.getElectricDipole(a, b);
        if (k == "Multi") return kr == ka ? c.getElectricMultipole(a, b, kr) : c.getElectricMultipole(a, b, kr, ka);
        if (k == "Mag") return c.getMagneticDipole(a, b);
        if (k == "Dia") return c.getDiamagnetism(a, b, ka);
        return c.getRadial(a, b, kr);
    });
}
static std::unique_ptr<MatrixElementCache> open(int dir, int m, int d) {
    std::unique_ptr<MatrixElementCache> c;
    if (dir == 0)
        c = std::make_unique<MatrixElementCache>();
    else
        c = std::make_unique<MatrixElementCache>(dirof(dir));
    if (m == 2) c->setMethod(WHITTAKER);
    if (d != 1) c->setDefectDB(dbof(d));
    return c;
}
static std::string oldask(MatrixElements &e, json const &extra, int r) {
    json const &q = cfg["req"][r - 1];
    std::string k = q["k"];
    int kr = q["kr"], ka = q["ka"];
    return answer([&] {
        St const &a = pool[q["a"].get<int>() - 1], &b = pool[q["b"].get<int>() - 1];
        std::vector<StateOneOld> v;
        auto add = [&](St const &s) {
            StateOneOld o = s.old();
            for (auto const &x : v)
                if (x == o) return;
            v.push_back(o);
        };
        for (auto const &i : extra)
            if (pool[i.get<int>() - 1].sp == a.sp) add(pool[i.get<int>() - 1]);
        add(a);
        add(b);
        auto basis = std::make_shared<BasisnamesOne>(BasisnamesOne::fromStates(v));
        int any = std::numeric_limits<int>::max();
        StateOneOld x = a.old(), y = b.old();
        if (k == "Dip") {
            for (int p = -1; p <= 1; ++p) e.precalculateElectricMomentum(basis, p);
            return e.getElectricMomentum(x, y);
        }
        if (k == "Multi") {
            e.precalculateMultipole(basis, kr);
            return e.getMultipole(x, y, kr);
        }
        if (k == "Mag") {
            for (int p = -1; p <= 1; ++p) e.precalculateMagneticMomentum(basis, p);
            return e.getMagneticMomentum(x, y);
        }
        if (k == "Dia") {
            e.precalculateDiamagnetism(basis, ka, any);
            return e.getDiamagnetism(x, y, ka);
        }
        e.precalculateRadial(basis, kr);
        return e.getRadial(x, y, kr);
    });
}
static std::unique_ptr<MatrixElements> oldopen(int m, std::string const &sp, std::string const &file) {
    Configuration c;
    c["missingCalc"] << (m == 1 ? "true" : "false");
    c["missingWhittaker"] << (m == 2 ? "true" : "false");
    return std::make_unique<MatrixElements>(c, sp, file);
}

// ---- another process --------------------------------------------------------------------------
struct Proc {
    pid_t pid;
    int fd;
};
static Proc spawn(int cut, std::function<void(std::function<void(std::string const &)>)> work) {
    int p[2];
    if (pipe(p) != 0) abort();
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        ::close(p[0]);
        if (cut > 0) left = cut;
        work([&](std::string const &s) {
            std::string t = s + "\n";
            if (::write(p[1], t.data(), t.size()) < 0) abort();
        });
        _exit(0);
    }
    ::close(p[1]);
    return {pid, p[0]};
}
static std::string reap(Proc const &p) {
    std::string all;
    char b[4096];
    ssize_t k;
    bool late = false;
    while (true) {
        pollfd f{p.fd, POLLIN, 0};
        if (poll(&f, 1, 120000) <= 0) {
            late = true;
            kill(p.pid, SIGKILL);
            break;
        }
        k = read(p.fd, b, sizeof b);
        if (k <= 0) break;
        all.append(b, k);
    }
    ::close(p.fd);
    int st;
    waitpid(p.pid, &st, 0);
    bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !late;
    bool fine = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    std::vector<std::string> v;
    std::istringstream is(all);
    for (std::string s; std::getline(is, s);) v.push_back(s);
    if (!killed && !fine) v.push_back(late ? "hangs" : "crashed");
    return J().raw("v", arrs(v)).b("killed", killed).done();
}
struct Ob {
    std::unique_ptr<MatrixElementCache> c;
    int dir = 0, m = 1, d = 1;
};
static Proc child(Ob &o, json const &a) {
    return spawn(a["cut"], [&](std::function<void(std::string const &)> say) {
        std::unique_ptr<MatrixElementCache> own;
        MatrixElementCache *c = o.c.get();
        try {
            if (a["fresh"].get<bool>()) {
                own = open(o.dir, o.m, o.d);
                c = own.get();
            }
        } catch (std::exception const &e) {
            for (size_t i = 0; i < a["r"].size(); ++i) say("cannot open");
            return;
        }
        for (auto const &r : a["r"]) say(ask(*c, r));
        left = -1;
    });
}
static Proc oldchild(json const &a) {
    return spawn(a["cut"], [&](std::function<void(std::string const &)> say) {
        std::map<std::string, std::unique_ptr<MatrixElements>> e;
        for (auto const &r : a["r"]) {
            std::string sp = pool[cfg["req"][r.get<int>() - 1]["a"].get<int>() - 1].sp;
            if (!e[sp]) e[sp] = oldopen(a["m"], sp, dirof(a["dir"]) + "/cache_elements.db");
            std::string v = oldask(*e[sp], a["s"], r);
            if (v == "refused") e.erase(sp); // (a failure ends the calculation)
            say(v);
        }
        left = -1;
    });
}
static void attempt(J &j, std::function<void()> f) {
    bool err = false;
    try {
        f();
    } catch (std::exception const &e) {
        if (getenv("DEBUG")) std::cerr << e.what() << std::endl;
        err = true;
    }
    j.b("res_err", err);
}
static void truth() {
    auto table = [&](int tab) {
        std::string s = "[";
        for (int m = 1; m <= 2; ++m) {
            s += m > 1 ? ",[" : "[";
            for (size_t d = 1; d <= cfg["dbs"].size(); ++d) {
                s += d > 1 ? ",[" : "[";
                for (size_t r = 1; r <= cfg["req"].size(); ++r) {
                    auto c = open(0, m, d);
                    if (tab) load(*c, tab);
                    s += (r > 1 ? "," : "") + esc(ask(*c, r));
                }
                s += "]";
            }
            s += "]";
        }
        return json::parse(s + "]");
    };
    cfg["truth"] = table(0);
    cfg["loaded"] = json::array();
    for (size_t t = 1; t <= cfg["csv"].size(); ++t) cfg["loaded"].push_back(table(t));
    cfg["known"] = json::array();
    for (size_t d = 1; d <= cfg["dbs"].size(); ++d) {
        json k = json::array();
        for (auto const &s : pool) {
            auto c = open(0, 1, d);
            k.push_back(answer([&] { return c->getRadial(s.make(), s.make(), 1); }) != "refused");
        }
        cfg["known"].push_back(k);
    }
    cfg["old"] = json::array();
    for (int m = 1; m <= 3; ++m) {
        json k = json::array();
        for (size_t r = 1; r <= cfg["req"].size(); ++r) {
            std::string v = "n/a";
            for (auto const &x : cfg["oldreq"])
                if (x == r) {
                    auto e = oldopen(m, pool[cfg["req"][r - 1]["a"].get<int>() - 1].sp, ":memory:");
                    v = oldask(*e, json::array(), r);
                }
            k.push_back(v);
        }
        cfg["old"].push_back(k);
    }
}
static void tables() {
    for (size_t t = 1; t <= cfg["csv"].size(); ++t)
        for (auto const &row : cfg["csv"][t - 1]["rows"]) {
            auto c = open(0, 1 + t % 2, 1);
            load(*c, t);
            std::string sp = cfg["csv"][t - 1]["sp"];
            int s2 = sp.back() == '3' ? 2 : sp.back() == '1' ? 0 : 1;
            int j1 = row[2], j2 = row[5];
            StateOne a(sp, row[0], row[1], j1 / 2.f, (j1 % 2) / 2.f), b(sp, row[3], row[4], j2 / 2.f, (j2 % 2) / 2.f);
            double x = c->getRadial(a, b, 1) / au2um, y = c->getRadial(b, a, 1) / au2um;
            emit(J("Table").num("s2", s2).raw("row", row.dump()).num("radial", std::llround((x == y ? x : 1e5) * 1000)).num("d", std::llround(std::abs(row[6].get<double>()) * 1000)));
        }
}

int main(int argc, char **argv) {
    scratch = argv[1];
    std::string line, last;
    int count = 0;
    while (std::getline(std::cin, line)) {
        json in = json::parse(line);
        if (in["cfg"].dump() != last) {
            last = in["cfg"].dump();
            cfg = in["cfg"];
            pool.clear();
            for (auto const &s : cfg["st"]) pool.push_back(get(s));
            truth();
            emit("{\"event\":\"Start\",\"cfg\":" + cfg.dump() + "}");
            tables();
        } else
            emit("{\"event\":\"Start\",\"cfg\":" + cfg.dump() + "}");
        base = scratch + "/h" + std::to_string(++count);
        for (int d = 1; d <= 2; ++d) sfs::create_directories(dirof(d));
        Ob ob[2];
        auto doopen = [&](int x, int dir) {
            J j("Open");
            j.num("s", x).num("a", dir);
            attempt(j, [&] {
                ob[x - 1].c.reset();
                ob[x - 1].c = open(dir, 1, 1);
                ob[x - 1].dir = dir;
                ob[x - 1].m = ob[x - 1].d = 1;
            });
            emit(j);
            return ob[x - 1].c != nullptr;
        };
        if (!doopen(1, in["dirs"][0]) || !doopen(2, in["dirs"][1])) continue;
        for (auto const &op : in["ops"]) {
            std::string k = op["o"];
            int x = op["s"];
            json const &a = op["a"];
            Ob &o = ob[x - 1];
            if (k == "Open") {
                if (!doopen(x, a)) break;
                continue;
            }
            J j(k);
            j.num("s", x).raw("a", a.dump());
            if (k == "Ask")
                j.str("v", ask(*o.c, a));
            else if (k == "Method")
                attempt(j, [&] {
                    o.c->setMethod(a == 1 ? NUMEROV : WHITTAKER);
                    o.m = a;
                });
            else if (k == "Defect")
                attempt(j, [&] {
                    o.c->setDefectDB(dbof(a));
                    o.d = a;
                    o.dir = 0;
                });
            else if (k == "Load")
                attempt(j, [&] { load(*o.c, a); });
            else if (k == "Pre")
                attempt(j, [&] {
                    std::vector<StateOne> v;
                    std::string sp = pool[a["s"][0].get<int>() - 1].sp, w = a["k"];
                    for (auto const &i : a["s"])
                        if (pool[i.get<int>() - 1].sp == sp) v.push_back(pool[i.get<int>() - 1].make());
                    if (a["kr"] == 2) v.insert(v.begin(), StateOne("artificial"));
                    int q = a["q"] == 99 ? std::numeric_limits<int>::max() : a["q"].get<int>(), kr = a["kr"];
                    if (w == "Multi") o.c->precalculateMultipole(v, kr);
                    if (w == "Radial") o.c->precalculateRadial(v, kr);
                    if (w == "Dip") o.c->precalculateElectricMomentum(v, q);
                    if (w == "Mag") o.c->precalculateMagneticMomentum(v, q);
                    if (w == "Dia") o.c->precalculateDiamagnetism(v, kr == 1 ? 0 : 2, q);
                });
            else if (k == "Save" || k == "Revive")
                attempt(j, [&] {
                    std::stringstream ss;
                    {
                        cereal::BinaryOutputArchive ar(ss);
                        ar << *o.c;
                    }
                    o.c.reset();
                    if (k == "Revive" && o.dir > 0 && ob[2 - x].dir != o.dir) {
                        sfs::remove_all(dirof(o.dir));
                        sfs::create_directories(dirof(o.dir));
                    }
                    o.c = std::make_unique<MatrixElementCache>();
                    cereal::BinaryInputArchive ar(ss);
                    ar >> *o.c;
                });
            else if (k == "Child")
                j.raw("got", reap(child(o, a)));
            else if (k == "Old")
                j.raw("got", reap(oldchild(a)));
            else {
                std::vector<Proc> p;
                for (auto const &y : a) p.push_back(k == "Par" ? child(o, y) : oldchild(y));
                j.raw("got", arrf(p, [](Proc const &y) { return reap(y); }));
            }
            emit(j);
        }
        ob[0].c.reset();
        ob[1].c.reset();
        sfs::remove_all(base);
    }
}
