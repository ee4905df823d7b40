// Conformance driver for Hamiltonian matrices (properties C09 and C10).
#include "Hamiltonianmatrix.hpp"
#include "vlog.hpp"
#include <complex>
#include <cstring>
#include <experimental/filesystem>
#include <unistd.h>
#include <nlohmann/json.hpp>
using namespace vlog;
using json = nlohmann::json;
typedef std::complex<double> Cx;

static void put(double &d, json const &v) { d = v[0].get<double>(); }
static void put(Cx &d, json const &v) { d = Cx(v[0].get<double>(), v[1].get<double>()); }
template <class S>
static S num(json const &v) {
    S s;
    put(s, v);
    return s;
}
static std::string cx(Cx v) {
    auto one = [](double x) {
        return x == std::floor(x) && std::abs(x) < 1e9 ? std::to_string(static_cast<long long>(x))
                                                      : "\"" + dbl(x) + "\"";
    };
    return "[" + one(v.real()) + "," + one(v.imag()) + "]";
}
template <class S>
static std::string dense(Eigen::SparseMatrix<S> const &m) {
    std::string s = "[";
    for (int i = 0; i < m.rows(); ++i) {
        s += i ? ",[" : "[";
        for (int j = 0; j < m.cols(); ++j) s += (j ? "," : "") + cx(m.coeff(i, j));
        s += "]";
    }
    return s + "]";
}
template <class S>
static std::string dump(Hamiltonianmatrix<S> const &m, bool shape = true) {
    J j;
    j.num("nb", m.num_basisvectors()).num("nc", m.num_coordinates());
    bool ok = !shape || (m.entries().rows() == m.entries().cols() &&
                         m.entries().cols() == static_cast<int>(m.num_basisvectors()));
    j.raw("e", ok ? dense(m.entries()) : "\"shape\"").raw("b", dense(m.basis()));
    return j.done();
}
static std::vector<bool> mask(json const &x) {
    std::vector<bool> v;
    for (auto const &b : x) v.push_back(b.get<bool>());
    return v;
}
template <class S>
static void script(std::mt19937 &g, json const &h) {
    typedef Hamiltonianmatrix<S> H;
    std::vector<H> sl(3);
    emit(J("New"));
    for (auto const &op : h) {
        std::string o = op["o"];
        int d = op["d"].get<int>() - 1, a = op["a"].get<int>() - 1, b = op["b"].get<int>() - 1;
        auto const &x = op["x"];
        std::vector<bool> found;
        if (g() % 2) sl[d].serialize(); // reading in between must not matter
        if (o == "Fill") {
            H m(x["tb"].size(), x["te"].size());
            for (auto const &t : x["te"]) m.addEntries(t["r"], t["c"], num<S>(t["v"]));
            for (auto const &t : x["tb"]) m.addBasis(t["r"], t["c"], num<S>(t["v"]));
            m.compress(x["nb"], x["nc"]);
            sl[d] = m;
        } else if (o == "AddE")
            sl[d].addEntries(x["r"], x["c"], num<S>(x["v"]));
        else if (o == "AddB")
            sl[d].addBasis(x["r"], x["c"], num<S>(x["v"]));
        else if (o == "Comp")
            sl[d].compress(x["nb"], x["nc"]);
        else if (o == "Plus")
            sl[d] = sl[a] + sl[b];
        else if (o == "Minus")
            sl[d] = sl[a] - sl[b];
        else if (o == "Inc")
            sl[a] += sl[b];
        else if (o == "Dec")
            sl[a] -= sl[b];
        else if (o == "TimesL")
            sl[d] = num<S>(x) * sl[a];
        else if (o == "TimesR")
            sl[d] = sl[a] * num<S>(x);
        else if (o == "TimesD")
            sl[d] = g() % 2 ? num<double>(x) * sl[a] : sl[a] * num<double>(x);
        else if (o == "Copy")
            sl[d] = H(sl[a]);
        else if (o == "Sub") {
            H t = sl[a].findSubs().at(0);
            sl[d] = t;
        } else if (o == "Abs")
            sl[d] = sl[a].abs();
        else if (o == "Store") {
            H m;
            if (g() % 2) m = sl[b];
            bytes_t y = sl[a].serialize();
            m.deserialize(y);
            H n;
            n.deserialize(m.serialize());
            sl[d] = n;
        } else if (o == "Block") {
            std::vector<ptrdiff_t> idx;
            for (auto const &i : x) idx.push_back(i.get<int>());
            sl[d] = sl[a].getBlock(idx);
        } else if (o == "Change") {
            int k = x["k"];
            Eigen::SparseMatrix<S> m(sl[a].num_coordinates(), k);
            for (size_t i = 0; i < x["m"].size(); ++i)
                for (int j = 0; j < k; ++j) {
                    S v = num<S>(x["m"][i][j]);
                    if (v != S(0) || g() % 5 == 0) m.insert(i, j) = v;
                }
            sl[d] = sl[a].changeBasis(m);
        } else if (o == "Cutoff")
            sl[d].applyCutoff(x.get<double>());
        else if (o == "RmVec")
            sl[d].removeUnnecessaryBasisvectors(mask(x));
        else if (o == "RmVec0")
            sl[d].removeUnnecessaryBasisvectors();
        else if (o == "RmSt")
            sl[d].removeUnnecessaryStates(mask(x));
        else if (o == "Find") {
            found = mask(x);
            sl[a].findUnnecessaryStates(found);
        }
        J j("Op");
        j.str("o", o).num("d", d + 1).num("a", a + 1).num("b", b + 1).raw("x", x.dump());
        if (o == "Find") j.raw("found", arrf(found, [](bool v) { return v ? "true" : "false"; }));
        // read every slot directly, or through what is stored
        std::string all;
        for (int i = 0; i < 3; ++i) {
            if (g() % 2)
                all += (i ? "," : "[") + dump(sl[i]);
            else {
                H m;
                bytes_t y = sl[i].serialize();
                m.deserialize(y);
                all += (i ? "," : "[") + dump(m);
            }
        }
        emit(j.raw("all", all + "]"));
    }
}
static double rnd(double x) { return std::round(1000 * x); }
template <class S>
static void diag(std::mt19937 &g, bool cplx) {
    int n = 1 + g() % 5;
    Eigen::MatrixXcd h = Eigen::MatrixXcd::Zero(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j <= i; ++j) {
            if (g() % 3 == 0 && i != j) continue;
            double re = static_cast<int>(g() % 7) - 3, im = static_cast<int>(g() % 5) - 2;
            h(i, j) = Cx(re, cplx && i != j ? im : 0);
            h(j, i) = std::conj(h(i, j));
        }
    std::vector<int> perm(n);
    for (int i = 0; i < n; ++i) perm[i] = i;
    if (g() % 2) std::shuffle(perm.begin(), perm.end(), g);
    Hamiltonianmatrix<S> m(n, n * n);
    Eigen::SparseMatrix<Cx> H(n, n), P(n, n);
    for (int i = 0; i < n; ++i) {
        double s = g() % 2 ? 1 : -1;
        P.insert(perm[i], i) = s;
        m.addBasis(perm[i], i, num<S>(json::array({s, 0})));
        for (int j = 0; j < n; ++j)
            if (h(i, j) != Cx(0)) {
                m.addEntries(i, j, num<S>(json::array({h(i, j).real(), h(i, j).imag()})));
                H.insert(i, j) = h(i, j);
            }
    }
    m.compress(n, n);
    m.serialize();
    m.diagonalize();
    Hamiltonianmatrix<S> r;
    bytes_t y = m.serialize();
    r.deserialize(y);
    std::vector<long long> dg;
    long long off = 0;
    for (int i = 0; i < r.entries().rows(); ++i)
        for (int j = 0; j < r.entries().cols(); ++j) {
            Cx v = r.entries().coeff(i, j);
            if (i == j)
                dg.push_back(rnd(v.real())), off += v.imag() != 0;
            else
                off += std::abs(v) != 0;
        }
    Eigen::SparseMatrix<Cx> B(r.basis().rows(), r.basis().cols());
    for (int i = 0; i < B.rows(); ++i)
        for (int j = 0; j < B.cols(); ++j) {
            Cx v = r.basis().coeff(i, j);
            B.insert(i, j) = Cx(rnd(v.real()), rnd(v.imag()));
        }
    emit(J("Diag").num("n", n).num("nb", r.num_basisvectors()).num("nc", r.num_coordinates())
             .num("offdiag", off).raw("h", dense(H)).raw("p", dense(P)).raw("diag", arr(dg))
             .raw("basis", dense(B)));
}
// ---- stored files (C10) ----
template <class S>
static Hamiltonianmatrix<S> rmat(std::mt19937 &g) {
    int nb = g() % 4, nc = g() % 4;
    if (g() % 4 == 0) nb = 0;
    Hamiltonianmatrix<S> m(4, 4);
    auto v = [&] {
        static double const t[] = {0.1, -1e300, 5e-324, 1. / 3, 2, -0.0, 1e-5, 12345.678901234567};
        return num<S>(json::array({t[g() % 8], t[g() % 8]}));
    };
    if (nb)
        for (int k = g() % 5; k > 0; --k) m.addEntries(g() % nb, g() % nb, v());
    if (nb * nc)
        for (int k = g() % 5; k > 0; --k) m.addBasis(g() % nc, g() % nb, v());
    m.compress(nb, nc);
    return m;
}
static std::string bytes8(double d) {
    unsigned char b[8];
    memcpy(b, &d, 8);
    return arr(std::vector<int>(b, b + 8));
}
template <class S>
static std::string show(Hamiltonianmatrix<S> const &m) { // exact content
    auto part = [](Eigen::SparseMatrix<S> const &x0) {
        Eigen::SparseMatrix<S> x = x0;
        x.makeCompressed();
        J j;
        j.num("r", x.rows()).num("c", x.cols());
        std::vector<std::string> t;
        for (int c = 0; c < x.outerSize(); ++c)
            for (int k = x.outerIndexPtr()[c]; k < x.outerIndexPtr()[c + 1] && k < x.nonZeros() && k >= 0; ++k) {
                Cx v = x.valuePtr()[k];
                t.push_back("[" + std::to_string(x.innerIndexPtr()[k]) + "," + std::to_string(c) + "," +
                            bytes8(v.real()) + "," + bytes8(v.imag()) + "]");
            }
        return j.raw("t", arrf(t, [](std::string const &s) { return s; })).done();
    };
    return "{\"e\":" + part(m.entries()) + ",\"b\":" + part(m.basis()) + "}";
}
static std::string readall(std::string const &p) {
    std::ifstream f(p, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(f), {});
}
static void writeall(std::string const &p, std::string const &s) {
    std::ofstream f(p, std::ios::binary);
    f.write(s.data(), s.size());
}
static std::string codes(std::string const &s) {
    std::vector<int> v;
    for (unsigned char c : s) v.push_back(c);
    return arr(v);
}
static int handles() {
    int n = 0;
    for (auto const &p : std::experimental::filesystem::directory_iterator("/proc/self/fd")) (void)p, ++n;
    return n;
}
// load the (damaged) file into an object that holds another matrix and may have been saved before
template <class S>
static void load(std::mt19937 &g, std::string const &dir, std::string const &content, std::string const &d,
                 bool missing) {
    std::string p = dir + "/m.mat", q = dir + "/q.mat";
    if (missing)
        unlink(p.c_str());
    else
        writeall(p, content);
    auto m = rmat<S>(g);
    if (g() % 2) m.save(q);
    std::string old = show<S>(m);
    bool ok = m.load(p);
    J j("Load");
    j.raw("d", d).b("want", std::is_same<S, Cx>::value).b("ok", ok).raw("old", old).raw("m", show<S>(m));
    Hamiltonianmatrix<S> n;
    m.save(q);
    if (!n.load(q)) n = Hamiltonianmatrix<S>();
    emit(j.raw("later", show<S>(n)));
}
static void damages(std::mt19937 &g, std::string const &dir, std::string const &f, bool cplx, int every) {
    auto one = [&](std::string const &c, std::string const &d, bool other = false, bool missing = false) {
        if (cplx != other)
            load<Cx>(g, dir, c, d, missing);
        else
            load<double>(g, dir, c, d, missing);
    };
    one(f, "{\"k\":\"none\"}");
    one(f, "{\"k\":\"none\"}", true);
    one(f, "{\"k\":\"missing\"}", false, true);
    for (size_t n = 0; n < f.size(); ++n)
        if (g() % every == 0) one(f.substr(0, n), "{\"k\":\"cut\",\"n\":" + std::to_string(n) + "}");
    for (size_t n = 0; n < f.size(); ++n)
        if (g() % every == 0) {
            static int const vs[] = {0, 1, 2, 3, 8, 127, 128, 255};
            int v = g() % 2 ? vs[g() % 8] : g() % 256;
            if (g() % 4 == 0) v = (static_cast<unsigned char>(f[n]) + 1) % 256;
            std::string x = f;
            x[n] = static_cast<char>(v);
            one(x, "{\"k\":\"set\",\"n\":" + std::to_string(n) + ",\"v\":" + std::to_string(v) + "}");
        }
}
template <class S>
static void saved(std::mt19937 &g, std::string const &dir, int every) {
    auto m = rmat<S>(g);
    std::string p = dir + "/s.mat";
    m.save(p);
    std::string f = readall(p);
    emit(J("Saved").raw("f", codes(f)).b("cplx", std::is_same<S, Cx>::value).raw("m", show<S>(m)));
    damages(g, dir, f, std::is_same<S, Cx>::value, every);
}
int main(int argc, char **argv) {
    std::string mode = argv[1];
    std::mt19937 g(std::stoul(argv[2]));
    if (mode == "script") {
        std::string line;
        while (std::getline(std::cin, line)) {
            json b = json::parse(line);
            if (b["c"].get<bool>())
                script<Cx>(g, b["h"]);
            else
                script<double>(g, b["h"]);
        }
    } else if (mode == "diag") {
        for (int i = std::stoi(argv[3]); i > 0; --i) {
            if (g() % 2)
                diag<Cx>(g, true);
            else
                diag<double>(g, false);
        }
    } else if (mode == "files") { // files made from the specification
        std::string line;
        while (std::getline(std::cin, line)) {
            json b = json::parse(line);
            std::string f;
            for (auto const &c : b["f"]) f.push_back(static_cast<char>(c.get<int>()));
            emit(J("Base").raw("f", codes(f)).b("cplx", b["cplx"]));
            damages(g, argv[3], f, b["cplx"], std::stoi(argv[4]));
        }
    } else if (mode == "saved") {
        int before = handles();
        for (int i = std::stoi(argv[5]); i > 0; --i) {
            if (g() % 2)
                saved<Cx>(g, argv[3], std::stoi(argv[4]));
            else
                saved<double>(g, argv[3], std::stoi(argv[4]));
        }
        emit(J("Handles").num("leaked", handles() - before));
        bool refused = false;
        try {
            rmat<double>(g).save(std::string(argv[3]) + "/no/such/dir/x.mat");
        } catch (std::exception const &) {
            refused = true;
        }
        emit(J("NoSave").b("refused", refused));
    }
    return 0;
}
