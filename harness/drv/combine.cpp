// Conformance driver for pair Hamiltonians (property C11).
#include "Hamiltonianmatrix.hpp"
#include "Symmetry.hpp"
#include "vlog.hpp"
#include <cmath>
#include <complex>
using namespace vlog;
typedef std::complex<double> Cx;
// energies are tenths, so that sums have rounding errors
static const double unit = 0.1;
static long long h2(double x) { return std::llround(2 * x); }

struct Atom {
    std::shared_ptr<BasisnamesOne> names;
    std::vector<StateOneOld> st; // label of each basis vector
    std::vector<int> e;
    Eigen::MatrixXd v; // coordinates x vectors
};
static std::shared_ptr<BasisnamesOne> names(std::mt19937 &g, int size, int which) {
    Configuration k;
    k["species1"] << "Rb";
    k["species2"] << "Rb";
    k["n1"] << 1 + g() % 3;
    k["l1"] << 0;
    k["j1"] << 0.5;
    k["m1"] << 0.5;
    k["n2"] << 1;
    k["l2"] << 0;
    k["j2"] << 0.5;
    k["m2"] << 0.5;
    k["deltaNSingle"] << 1;
    k["deltaLSingle"] << 2;
    k["deltaJSingle"] << 2;
    k["deltaMSingle"] << -1;
    k["missingCalc"] << "true";
    k["missingWhittaker"] << "false";
    auto b = std::make_shared<BasisnamesOne>(which == 0       ? BasisnamesOne::fromBoth(k)
                                             : which == 1 ? BasisnamesOne::fromFirst(k)
                                                          : BasisnamesOne::fromSecond(k));
    // keep some multiplets, both signs of m (or only some m)
    std::map<std::vector<long long>, int> keep;
    int total = 0;
    bool full = g() % 2;
    for (int tries = 0; tries < 60 && total < size; ++tries) {
        size_t i = g() % b->size();
        auto const &s = b->get(i);
        std::vector<long long> key{s.n, s.l, h2(s.j), full ? 0 : std::llabs(h2(s.m))};
        int w = full ? h2(s.j) + 1 : 2;
        if (keep.count(key) || total + w > size) continue;
        keep[key] = 1;
        total += w;
    }
    std::vector<bool> need(b->size());
    for (size_t i = 0; i < b->size(); ++i) {
        auto const &s = b->get(i);
        need[i] = keep.count({s.n, s.l, h2(s.j), full ? 0 : std::llabs(h2(s.m))}) > 0;
    }
    b->removeUnnecessaryStates(need);
    return b;
}
static Atom atom(std::mt19937 &g, int size, bool mix, bool anyE, int which) {
    Atom a;
    a.names = names(g, size, which);
    std::map<std::vector<long long>, int> en;
    for (auto const &s : *a.names) {
        std::vector<long long> key{s.n, s.l, h2(s.j), std::llabs(h2(s.m))};
        if (!en.count(key)) en[key] = static_cast<int>(g() % 7) - 3;
        a.st.push_back(s);
        a.e.push_back(anyE ? static_cast<int>(g() % 9) - 4 : en[key]);
    }
    size_t n = a.st.size();
    a.v = Eigen::MatrixXd::Identity(n, n);
    if (mix) {
        for (size_t i = 0; i < n; ++i)
            for (size_t j = i + 1; j < n; ++j)
                if (a.st[i].m == a.st[j].m && (a.st[i].l - a.st[j].l) % 2 == 0 && g() % 2) {
                    double c = std::cos(g() % 100), s = std::sqrt(1 - c * c);
                    Eigen::VectorXd x = a.v.col(i), y = a.v.col(j);
                    a.v.col(i) = c * x + s * y;
                    a.v.col(j) = -s * x + c * y;
                }
        // and in any order
        std::vector<int> p(n);
        for (size_t i = 0; i < n; ++i) p[i] = i;
        std::shuffle(p.begin(), p.end(), g);
        Eigen::MatrixXd w(n, n);
        auto st = a.st;
        auto e = a.e;
        for (size_t i = 0; i < n; ++i) {
            w.col(i) = a.v.col(p[i]);
            st[i] = a.st[p[i]];
            e[i] = a.e[p[i]];
        }
        a.v = w;
        a.st = st;
        a.e = e;
    }
    return a;
}
template <class S>
static Hamiltonianmatrix<S> ham(Atom const &a) {
    Hamiltonianmatrix<S> m(10, 10);
    for (int i = 0; i < a.v.rows(); ++i)
        for (int j = 0; j < a.v.cols(); ++j)
            if (a.v(i, j) != 0) m.addBasis(i, j, a.v(i, j));
    for (size_t i = 0; i < a.e.size(); ++i) m.addEntries(i, i, a.e[i] * unit);
    m.compress(a.e.size(), a.st.size());
    return m;
}
static std::string labels(Atom const &a) {
    return arrf(a.st, [](StateOneOld const &s) {
        return arr(std::vector<long long>{s.n, s.l, h2(s.j), h2(s.m)});
    });
}
template <class S>
static void run(Atom const &a, Atom const &b, std::shared_ptr<BasisnamesTwo> const &two, Symmetry sym, int cut) {
    auto A = ham<S>(a), B = ham<S>(b);
    auto sa = A.serialize();
    auto m = combine<S>(A, B, cut * unit, two, sym);
    auto s = [](int x) { return x == NA ? 0 : x; };
    J j("Combine");
    j.raw("sym", J().num("inv", s(sym.inversion)).num("per", s(sym.permutation)).num("ref", s(sym.reflection))
                     .num("rot", sym.rotation == NA ? 99999 : sym.rotation).done());
    j.num("cut", cut).num("nc", m.num_coordinates()).num("nb", m.num_basisvectors());
    long long off = 0;
    std::vector<long long> dg(m.entries().cols());
    for (int c = 0; c < m.entries().cols(); ++c)
        for (int r = 0; r < m.entries().rows(); ++r) {
            Cx v = m.entries().coeff(r, c);
            if (r == c)
                dg[c] = std::llround(v.real() / unit);
            else
                off += v != Cx(0);
            if (std::abs(v / unit - Cx(std::round(v.real() / unit))) > 1e-9) ++off;
        }
    Eigen::MatrixXd V(a.v.rows() * b.v.rows(), a.v.cols() * b.v.cols());
    for (int i = 0; i < a.v.rows(); ++i)
        for (int k = 0; k < a.v.cols(); ++k)
            V.block(i * b.v.rows(), k * b.v.cols(), b.v.rows(), b.v.cols()) = a.v(i, k) * b.v;
    Eigen::MatrixXcd C = Eigen::MatrixXcd(m.basis().template cast<Cx>());
    C = V.transpose().cast<Cx>() * C;
    std::vector<std::string> cols;
    for (int c = 0; c < C.cols(); ++c) {
        std::vector<std::string> t;
        for (int r = 0; r < C.rows(); ++r)
            if (std::abs(C(r, c)) > 1e-6)
                t.push_back(arr(std::vector<long long>{r, std::llround(10000 * C(r, c).real())}));
        cols.push_back(arrf(t, [](std::string const &s) { return s; }));
    }
    emit(j.num("offdiag", off).raw("diag", arr(dg)).raw("cols", arrf(cols, [](std::string const &s) { return s; })));
    std::vector<bool> nec(a.st.size() * b.st.size());
    energycutoff<S>(A, B, cut * unit, nec);
    if (a.v.isIdentity() && b.v.isIdentity())
        emit(J("Window").num("cut", cut).raw("marked", arrf(nec, [](bool x) { return x ? "true" : "false"; })));
}
int main(int argc, char **argv) {
    std::mt19937 g(std::stoul(argv[1]));
    int n = std::stoi(argv[2]), size = std::stoi(argv[3]);
    parity_t ps[3] = {NA, EVEN, ODD};
    for (int r = 0; r < n; ++r) {
        bool same = g() % 3 > 0, mix = g() % 4 == 0, anyE = g() % 3 == 0;
        Atom a = atom(g, size, mix, anyE, same ? 0 : 1), b = same ? a : atom(g, size - 1, mix, anyE, 2);
        if (a.st.empty() || b.st.empty()) continue;
        auto two = same ? std::make_shared<BasisnamesTwo>(a.names)
                        : std::make_shared<BasisnamesTwo>(a.names, b.names);
        emit(J("Bases").raw("s1", labels(a)).raw("s2", labels(b)).raw("e1", arr(a.e)).raw("e2", arr(b.e)));
        bool refl = !mix && !anyE;
        for (int i = 0; i < 3; ++i)
            for (int p = 0; p < 3; ++p)
                for (int f = 0; f < 3; ++f) {
                    if (!same && (i || p)) continue;
                    if (!refl && f) continue;
                    Symmetry sym{ps[i], ps[f], ps[p], g() % 2 ? static_cast<int>(NA) : static_cast<int>(g() % 4) - 1};
                    if (f && sym.rotation != NA) sym.rotation = std::abs(sym.rotation);
                    int cut = static_cast<int>(g() % 6) - 1;
                    if (g() % 2)
                        run<Cx>(a, b, two, sym, cut);
                    else
                        run<double>(a, b, two, sym, cut);
                }
    }
    int vals[4] = {NA, EVEN, ODD, 0};
    for (int i = 0; i < 200; ++i) {
        Symmetry x{ps[g() % 3], ps[g() % 3], ps[g() % 3], vals[g() % 4]},
            y = g() % 2 ? x : Symmetry{ps[g() % 3], ps[g() % 3], ps[g() % 3], vals[g() % 4]};
        if (g() % 3 == 0) y.rotation = vals[g() % 4];
        if (g() % 3 == 0) y.permutation = ps[g() % 3];
        emit(J("Order").raw("a", arr(std::vector<int>{x.inversion, x.reflection, x.permutation, x.rotation}))
                 .raw("b", arr(std::vector<int>{y.inversion, y.reflection, y.permutation, y.rotation}))
                 .b("lt", x < y));
    }
    return 0;
}
