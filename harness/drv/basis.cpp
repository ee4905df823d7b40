// Conformance driver for one-atom and pair bases (properties C06 and C07).
#include "Basisnames.hpp"
#include "vlog.hpp"
#include <cmath>
#include <unistd.h>
using namespace vlog;

static std::string dir;
static long long h2(double x) { return std::llround(2 * x); }
static std::string row(StateOneOld const &s) {
    return arr(std::vector<long long>{s.idx, s.n, s.l, h2(s.j), h2(s.m)});
}
static std::string row(StateTwoOld const &s) {
    return arr(std::vector<long long>{s.idx, s.n[0], s.l[0], h2(s.j[0]), h2(s.m[0]), s.n[1], s.l[1],
                                      h2(s.j[1]), h2(s.m[1])});
}
template <class B>
static std::string rows(B const &b) {
    std::string s = "[";
    bool f = true;
    for (auto const &x : b) {
        s += (f ? "" : ",") + row(x);
        f = false;
    }
    return s + "]";
}
struct Start {
    int n, l, j2, m2;
};
static std::string list(Start const &s) { return arr(std::vector<int>{s.n, s.l, s.j2, s.m2}); }
struct Cfg {
    int d[4];
};
static Configuration conf(Start const &a, Start const &b, Cfg const &c, char const *second = "Rb") {
    Configuration k;
    k["species1"] << "Rb";
    k["species2"] << second;
    k["n1"] << a.n;
    k["l1"] << a.l;
    k["j1"] << a.j2 / 2.;
    k["m1"] << a.m2 / 2.;
    k["n2"] << b.n;
    k["l2"] << b.l;
    k["j2"] << b.j2 / 2.;
    k["m2"] << b.m2 / 2.;
    k["deltaNSingle"] << c.d[0];
    k["deltaLSingle"] << c.d[1];
    k["deltaJSingle"] << c.d[2];
    k["deltaMSingle"] << c.d[3];
    k["missingCalc"] << "true";
    k["missingWhittaker"] << "false";
    return k;
}
static std::string darr(Cfg const &c) { return arr(std::vector<int>(c.d, c.d + 4)); }
// what the basis tells about how it was made: species, start states and distances
template <class B>
static J about(J j, B const &b) {
    Configuration const &k = b.getConf();
    std::vector<std::string> sp;
    std::vector<std::string> q;
    for (std::string w : {"1", "2"}) {
        if (k.count("n" + w) == 0 || k["n" + w].str().empty()) continue;
        if (k.count("species" + w)) sp.push_back(k["species" + w].str());
        double n, l, jj, m;
        k["n" + w] >> n;
        k["l" + w] >> l;
        k["j" + w] >> jj;
        k["m" + w] >> m;
        q.push_back(arr(std::vector<long long>{std::llround(n), std::llround(l), h2(jj), h2(m)}));
    }
    std::vector<int> d;
    for (auto x : {"deltaNSingle", "deltaLSingle", "deltaJSingle", "deltaMSingle"}) {
        int v;
        k[x] >> v;
        d.push_back(v);
    }
    return j.raw("sp", arrs(sp)).raw("q", arrf(q, [](std::string const &s) { return s; })).raw("ds", arr(d));
}
template <class B>
static J ev(char const *e, int slot, B const &b) {
    J j(e);
    j.num("slot", slot).num("dim", b.dim()).num("size", b.size()).raw("rows", rows(b));
    return about(j, b);
}
template <class B>
static void saved(int slot, B &b) {
    std::string p = dir + "/basis.csv";
    unlink(p.c_str());
    b.save(p);
    std::ifstream f(p);
    std::string line;
    std::vector<std::string> out;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::vector<double> v;
        double x;
        while (is >> x) v.push_back(x);
        std::vector<long long> w;
        for (size_t k = 0; k < v.size(); ++k)
            w.push_back((k > 0 && (k - 1) % 4 >= 2) ? h2(v[k]) : std::llround(v[k]));
        out.push_back(arr(w));
    }
    emit(J("Saved").num("slot", slot).raw("rows", arrf(out, [](std::string const &s) { return s; })));
}
template <class B>
static void removal(std::mt19937 &g, int slot, B &b, size_t nidx, bool keepidx = false) {
    std::vector<bool> need(nidx);
    std::vector<size_t> keep;
    int p = g() % 5;
    for (size_t k = 0; k < nidx; ++k) {
        need[k] = p == 4 || static_cast<int>(g() % 4) < p;
        if (p == 0 && g() % 3 == 0) need[k] = true;
    }
    if constexpr (std::is_same<B, BasisnamesTwo>::value) // mostly keep the start pair
        for (auto const &s : b)
            if (s == b.initial() && g() % 4) need[s.idx] = true;
    for (size_t k = 0; k < nidx; ++k)
        if (need[k]) keep.push_back(k);
    if (keepidx) {
        if constexpr (std::is_same<B, BasisnamesTwo>::value) b.removeUnnecessaryStatesKeepIdx(need);
    } else
        b.removeUnnecessaryStates(need);
    emit(ev(keepidx ? "RemoveKeep" : "Remove", slot, b).raw("keep", arr(keep)));
}
static void initial(int slot, BasisnamesTwo const &b) {
    auto r = b.initial();
    std::string s = row(r);
    emit(J("Initial").num("slot", slot).num("i", r.idx).raw("s", "[" + s.substr(s.find(',') + 1)));
}
static Start rstart(std::mt19937 &g, int nmax) {
    Start s;
    s.n = 1 + g() % nmax;
    s.l = g() % s.n;
    s.j2 = 2 * s.l + 1 - (s.l ? 2 * static_cast<int>(g() % 2) : 0);
    s.m2 = s.j2 - 2 * static_cast<int>(g() % (s.j2 + 1));
    return s;
}
static Cfg rcfg(std::mt19937 &g, int dn) {
    Cfg c;
    c.d[0] = g() % (dn + 1);
    for (int k = 1; k < 4; ++k) c.d[k] = static_cast<int>(g() % 4) - 1;
    return c;
}

int main(int argc, char **argv) {
    std::string mode = argv[1];
    std::mt19937 g(std::stoul(argv[2]));
    dir = argv[3];
    int n = std::stoi(argv[4]);
    if (mode == "script") { // all small settings
        Start s, other{1, 0, 1, 1};
        Cfg c;
        while (std::cin >> s.n >> s.l >> s.j2 >> s.m2 >> c.d[0] >> c.d[1] >> c.d[2] >> c.d[3]) {
            auto b = g() % 2 ? BasisnamesOne::fromFirst(conf(s, other, c))
                             : BasisnamesOne::fromSecond(conf(other, s, c));
            emit(ev("One", 0, b).raw("start", list(s)).raw("d", darr(c)).str("of", "Rb"));
        }
        return 0;
    }
    for (int r = 0; r < n; ++r) {
        if (mode == "one") {
            Start a = rstart(g, 7), b = rstart(g, 7);
            if (g() % 2) b.n = a.n, b.l = std::min<int>(b.l, b.n - 1), b.j2 = 2 * b.l + 1, b.m2 = b.j2;
            Cfg c = rcfg(g, 2);
            if (g() % 4 == 0) { // a distance without limit has to reach from the lower to the higher state
                a = {1 + static_cast<int>(g() % 2), 0, 1, static_cast<int>(g() % 2) ? 1 : -1};
                b = {5 + static_cast<int>(g() % 3), 0, 1, static_cast<int>(g() % 2) ? 1 : -1};
                if (g() % 3 == 0) b.l = 1, b.j2 = 3;
                c.d[0] = g() % 2;
                c.d[1] = -1;
                if (g() % 2) c.d[2] = -1;
                if (g() % 3 == 0) c.d[3] = -1;
                if (g() % 2) std::swap(a, b);
            }
            auto x = BasisnamesOne::fromFirst(conf(a, b, c));
            emit(ev("One", 0, x).raw("start", list(a)).raw("d", darr(c)).str("of", "Rb"));
            auto y = BasisnamesOne::fromSecond(conf(a, b, c, "Cs"));
            emit(ev("One", 1, y).raw("start", list(b)).raw("d", darr(c)).str("of", "Cs"));
            auto z = BasisnamesOne::fromBoth(conf(a, b, c));
            emit(ev("Both", 2, z).raw("start", list(a)).raw("start2", list(b)).raw("d", darr(c)));
            saved(0, x);
            saved(2, z);
            removal(g, 2, z, z.size());
            removal(g, 0, x, x.size());
            saved(0, x);
            removal(g, 0, x, x.size());
            removal(g, 2, z, z.size());
        } else {
            std::shared_ptr<BasisnamesOne> x, y;
            Start a, b;
            Cfg c;
            bool both = g() % 3 == 0;
            char const *second = !both && g() % 2 ? "Cs" : "Rb";
            do {
                a = rstart(g, 3);
                b = rstart(g, 3);
                c = rcfg(g, 1);
                x = std::make_shared<BasisnamesOne>(BasisnamesOne::fromFirst(conf(a, b, c, second)));
                y = std::make_shared<BasisnamesOne>(BasisnamesOne::fromSecond(conf(a, b, c, second)));
                if (both) x = std::make_shared<BasisnamesOne>(BasisnamesOne::fromBoth(conf(a, b, c)));
            } while (x->size() > 14 || y->size() > 12 || x->size() == 0);
            if (both) {
                emit(ev("Both", 0, *x).raw("start", list(a)).raw("start2", list(b)).raw("d", darr(c)));
                removal(g, 0, *x, x->size());
                bool refused = false;
                try {
                    BasisnamesTwo bad(x, x);
                } catch (std::runtime_error const &) {
                    refused = true;
                }
                emit(J("Refused").b("why", refused));
            } else {
                emit(ev("One", 0, *x).raw("start", list(a)).raw("d", darr(c)).str("of", "Rb"));
                emit(ev("One", 1, *y).raw("start", list(b)).raw("d", darr(c)).str("of", second));
                removal(g, 1, *y, y->size());
                bool refused = false;
                try {
                    BasisnamesTwo bad(x);
                } catch (std::runtime_error const &) {
                    refused = true;
                }
                emit(J("Refused").b("why", refused));
            }
            auto two = both ? std::make_shared<BasisnamesTwo>(x) : std::make_shared<BasisnamesTwo>(x, y);
            emit(ev("Two", 2, *two).num("a", 0).num("b", both ? 0 : 1));
            initial(2, *two);
            int k = g() % 4;
            for (int i = 0; i < k; ++i) {
                removal(g, 2, *two, two->size());
                initial(2, *two);
            }
            saved(2, *two);
            auto p = BasisnamesOne::fromFirst(two);
            emit(ev("Part", 3, p).num("a", 2).num("which", 1));
            p = BasisnamesOne::fromSecond(two);
            emit(ev("Part", 3, p).num("a", 2).num("which", 2));
            if (p.size()) removal(g, 3, p, p.size());
            size_t ni = two->size();
            for (int i = 0; i < 2; ++i) removal(g, 2, *two, ni, true);
            saved(2, *two);
            removal(g, 2, *two, ni);
            initial(2, *two);
            saved(2, *two);
        }
    }
}
