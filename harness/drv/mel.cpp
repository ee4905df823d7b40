// Conformance driver for the matrix elements of one atom and their selection rules (property C20).
#include "Basisnames.hpp"
#include "Constants.hpp"
#include "MatrixElementCache.hpp"
#include "MatrixElements.hpp"
#include "State.hpp"
#include "vlog.hpp"
#include <algorithm>
#include <cmath>
#include <random>
using namespace vlog;

struct Q {
    int n, l, j2, m2;
};
static std::string txt(Q const &q) {
    return "[" + std::to_string(q.n) + "," + std::to_string(q.l) + "," + std::to_string(q.j2) + "," + std::to_string(q.m2) + "]";
}
static std::vector<Q> pool(std::vector<int> const &ns, int lmax, int s2) {
    std::vector<Q> v;
    for (int n : ns)
        for (int l = 0; l <= lmax; ++l)
            for (int j2 = std::abs(2 * l - s2); j2 <= 2 * l + s2; j2 += 2)
                for (int m2 = -j2; m2 <= j2; m2 += 2) v.push_back({n, l, j2, m2});
    return v;
}
static StateOne mk(std::string const &sp, Q const &q) { return StateOne(sp, q.n, q.l, q.j2 / 2.f, q.m2 / 2.f); }
static StateOneOld mko(std::string const &sp, Q const &q) { return StateOneOld(sp, q.n, q.l, q.j2 / 2.f, q.m2 / 2.f); }
// [value in 1/10000, is it there at all, could it be judged]
static std::string normal(double v, double unit) {
    if (!std::isfinite(v) || !std::isfinite(unit)) return "[0,true,false]";
    if (std::abs(unit) < 1e-12) return "[0,false,false]";
    double x = v / unit;
    return "[" + std::to_string(std::abs(x) < 1e5 ? std::llround(x * 10000) : 999999999) + "," +
        (std::abs(x) > 1e-9 ? "true" : "false") + ",true]";
}
template <class F>
static std::string qs(int k, F f) {
    std::vector<int> v;
    for (int q = -k - 1; q <= k + 1; ++q)
        if (f(q)) v.push_back(q);
    return arr(v);
}
struct Row {
    J j;
    std::string c = "[", rule = "[", ruleq = "[", val = "[", rev = "[";
    bool first = true;
    Row(char const *what, char const *cls, int s2, int k, Q const &r) : j(what) {
        j.str("cls", cls).num("s2", s2).num("k", k).raw("r", txt(r));
    }
    void add(Q const &q, bool sel, std::string const &selq, std::string const &v, std::string const &w) {
        std::string sep = first ? "" : ",";
        first = false;
        c += sep + txt(q);
        rule += sep + (sel ? "true" : "false");
        ruleq += sep + selq;
        val += sep + v;
        rev += sep + w;
    }
    void end() {
        emit(j.raw("c", c + "]").raw("rule", rule + "]").raw("ruleq", ruleq + "]").raw("val", val + "]").raw("rev", rev + "]"));
    }
};

int main(int argc, char **argv) {
    int seed = atoi(argv[1]), lmax = atoi(argv[2]), share = atoi(argv[3]);
    std::string dir = argv[4];
    std::mt19937 g(seed);
    struct Sp {
        char const *name;
        int s2, n;
    };
    for (Sp sp : {Sp{"Rb", 1, 20}, Sp{"Sr1", 0, 22}, Sp{"Sr3", 2, 23}, Sp{"Cs", 1, 31}}) {
        auto all = pool({sp.n, sp.n + 1}, lmax, sp.s2);
        MatrixElementCache cache;
        if (g() % 2) cache.setMethod(WHITTAKER);
        std::string name = sp.name;
        std::vector<StateOne> st;
        std::shuffle(all.begin(), all.end(), g);
        for (auto const &q : all) st.push_back(mk(name, q));
        // some elements are asked for in advance
        for (int k = 1; k <= 3; ++k)
            if (g() % 3 == 0) cache.precalculateMultipole(st, k);
        if (g() % 3 == 0) cache.precalculateMagneticMomentum(st, int(g() % 3) - 1);
        if (g() % 3 == 0) cache.precalculateDiamagnetism(st, 2 * (g() % 2), std::numeric_limits<int>::max());
        for (auto const &r : all) {
            if (int(g() % 100) >= share) continue;
            StateOne a = mk(name, r);
            for (int k = 0; k <= 3; ++k) {
                Row row("Pole", "cache", sp.s2, k, r);
                for (auto const &q : all) {
                    if (g() % 2) continue;
                    StateOne b = mk(name, q);
                    int kr = k == 0 ? 2 : g() % 4 ? k : 2;
                    auto ask = [&](StateOne const &x, StateOne const &y) {
                        double u = elementary_charge * cache.getRadial(x, y, kr);
                        if (kr == 2 && k != 1 && g() % 2) return normal(cache.getDiamagnetism(x, y, k), 2. / 3 * elementary_charge * u);
                        if (k == 1 && kr == 1 && g() % 2) return normal(cache.getElectricDipole(x, y), u);
                        if (kr == k && g() % 2) return normal(cache.getElectricMultipole(x, y, k), u);
                        return normal(cache.getElectricMultipole(x, y, kr, k), u);
                    };
                    std::string v, w;
                    if (g() % 2) v = ask(a, b), w = ask(b, a);
                    else w = ask(b, a), v = ask(a, b);
                    row.add(q, selectionRulesMultipoleNew(a, b, k), qs(k, [&](int x) { return selectionRulesMultipoleNew(a, b, k, x); }), v, w);
                }
                row.end();
            }
            Row row("Moment", "cache", sp.s2, 1, r);
            for (auto const &q : all) {
                StateOne b = mk(name, q);
                double u = -bohr_magneton * cache.getRadial(a, b, 0);
                std::string v = normal(cache.getMagneticDipole(a, b), u), w = normal(cache.getMagneticDipole(b, a), u);
                row.add(q, selectionRulesMomentumNew(a, b), qs(1, [&](int x) { return selectionRulesMomentumNew(a, b, x); }), v, w);
            }
            row.end();
        }
        // states of different species have no elements
        {
            StateOne a = mk(name, all[0]), b = mk(name == "Rb" ? "Cs" : "Rb", {20, 0, 1, 1});
            int refused = 0;
            for (int i = 0; i < 5; ++i) {
                try {
                    if (i == 0) cache.getElectricDipole(a, b);
                    if (i == 1) cache.getElectricMultipole(b, a, 2);
                    if (i == 2) cache.getMagneticDipole(a, b);
                    if (i == 3) cache.getDiamagnetism(b, a, 2);
                    if (i == 4) cache.getRadial(a, b, 1);
                } catch (std::runtime_error const &) {
                    ++refused;
                }
            }
            emit(J("Mixed").num("asked", 5).num("refused", refused));
        }
        if (sp.s2 != 1) continue;
        // the elements as used by the calculation engine
        MatrixElements old(name, dir + "/old_" + name + ".db");
        std::vector<StateOneOld> so;
        for (auto const &q : all) so.push_back(mko(name, q));
        auto basis = std::make_shared<BasisnamesOne>(BasisnamesOne::fromStates(so));
        for (int k = 0; k <= 3; ++k) old.precalculateRadial(basis, k);
        int any = std::numeric_limits<int>::max();
        std::vector<int> order = {0, 1, 2, 3, 4, 5, 6, 7, 8};
        std::shuffle(order.begin(), order.end(), g);
        for (int o : order) {
            if (o < 3) old.precalculateMagneticMomentum(basis, o - 1);
            if (o == 3) for (int q = -1; q <= 1; ++q) old.precalculateElectricMomentum(basis, q);
            if (o >= 4 && o < 7) old.precalculateMultipole(basis, o - 3);
            if (o >= 7) old.precalculateDiamagnetism(basis, 2 * (o - 7), any);
        }
        for (auto const &r : all) {
            if (int(g() % 100) >= share) continue;
            StateOneOld a = mko(name, r);
            for (int k = 0; k <= 3; ++k) {
                Row row("Pole", "old", 1, k, r);
                for (auto const &q : all) {
                    if (g() % 2) continue;
                    StateOneOld b = mko(name, q);
                    auto ask = [&](StateOneOld const &x, StateOneOld const &y) {
                        if (k == 0 || (k == 2 && g() % 2))
                            return normal(old.getDiamagnetism(x, y, k), elementary_charge * inverse_electron_rest_mass / 12 * old.getRadial(x, y, 2));
                        return normal(k == 1 && g() % 2 ? old.getElectricMomentum(x, y) : old.getMultipole(x, y, k), old.getRadial(x, y, k));
                    };
                    std::string v = ask(a, b), w = ask(b, a);
                    row.add(q, selectionRulesMultipole(a, b, k), qs(k, [&](int x) { return selectionRulesMultipole(a, b, k, x); }), v, w);
                }
                row.end();
            }
            Row row("Moment", "old", 1, 1, r);
            for (auto const &q : all) {
                StateOneOld b = mko(name, q);
                double u = au2GHz / au2G * 0.5 * old.getRadial(a, b, 0);
                row.add(q, selectionRulesMomentum(a, b), qs(1, [&](int x) { return selectionRulesMomentum(a, b, x); }),
                        normal(old.getMagneticMomentum(a, b), u), normal(old.getMagneticMomentum(b, a), u));
            }
            row.end();
        }
    }
}
