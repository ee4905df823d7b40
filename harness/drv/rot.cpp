// Conformance driver for rotations (SystemOne, SystemTwo, WignerD; property C24).
#include "SystemTwo.hpp"
#include "fakeelem.hpp"
#include "rotcommon.hpp"
#include <cereal/archives/binary.hpp>

double MatrixElementCache::getElectricMultipole(StateOne const &, StateOne const &, int) { return 0; }
double MatrixElementCache::getRadial(StateOne const &, StateOne const &, int) { return 0; }
static MatrixElementCache cache;
typedef std::array<double, 3> V3;

template <class S>
static std::unique_ptr<SystemOne<S>> atom(Pool const &pool, json const &ids, std::string const &species) {
    auto m = std::make_unique<SystemOne<S>>(species, cache);
    m->restrictN(std::set<int>{1});
    m->restrictL(std::set<int>{3});
    std::set<StateOne> v;
    for (auto const &i : ids) v.insert(pool.st[i.get<int>() - 1]);
    m->addStates(v);
    return m;
}
static void table(Pool const &pool, json const &T) {
    fake::table = [&](std::string const &k, StateOne const &r, StateOne const &c) {
        int a = pool.id(r) - 1, b = pool.id(c) - 1;
        if (a < 0 || b < 0 || !T.contains(k)) return 0.;
        return T[k][std::min(a, b)][std::max(a, b)].get<double>();
    };
}
template <class S>
static void history(json const &cfg, json const &ops) {
    Pool pool(cfg["pool"]);
    table(pool, cfg["T"]);
    auto m = atom<S>(pool, cfg["st"], cfg["species"]);
    auto report = [&](J &j, bool ham) {
        if (ham) attempt(j, "H", [&] { return mat(m->getHamiltonian(), 1000); });
        attempt(j, "B", [&] { return mat(m->getBasisvectors(), 10000); });
        attempt(j, "st", [&] { return arrf(m->getStates(), [&](StateOne const &s) { return std::to_string(pool.id(s)); }); });
    };
    {
        J j("Start");
        j.raw("cfg", cfg.dump());
        report(j, true);
        emit(j);
    }
    for (auto const &op : ops) {
        std::string o = op["o"];
        json const &a = op["a"];
        J j(o);
        j.raw("a", a.dump());
        attempt(j, "res", [&]() -> std::string {
            auto vec = [](json const &v) { return std::array<double, 3>{{v[0], v[1], v[2]}}; };
            if (o == "Rotate")
                m->rotate(angle(a[0]), angle(a[1]), angle(a[2]));
            else if (o == "Axes")
                m->rotate(newz(a), newy(a));
            else if (o == "Overlap" || o == "OverlapAxes") {
                std::vector<StateOne> v;
                for (auto const &i : a[0]) v.push_back(pool.st[i.get<int>() - 1]);
                json const &t = a[1];
                auto w = o == "Overlap" ? m->getOverlap(v, angle(t[0]), angle(t[1]), angle(t[2]))
                                        : m->getOverlap(v, newz(t), newy(t));
                std::string r;
                for (int i = 0; i < w.size(); ++i) r += (i ? "," : "") + std::to_string(std::llround(w[i] * 10000));
                return "[" + r + "]";
            } else if (o == "E")
                m->setEfield(vec(a));
            else if (o == "B")
                m->setBfield(vec(a));
            else if (o == "Ham")
                m->buildHamiltonian();
            else if (o == "Diag")
                m->diagonalize();
            else if (o == "Copy") {
                auto copy = std::make_unique<SystemOne<S>>(*m);
                m = std::move(copy);
            } else if (o == "Save") {
                std::stringstream ss;
                {
                    cereal::BinaryOutputArchive out(ss);
                    out(*m);
                }
                m = std::make_unique<SystemOne<S>>("Rb", cache);
                cereal::BinaryInputArchive in(ss);
                in(*m);
            } else
                throw std::logic_error("unknown operation " + o);
            return "true";
        });
        report(j, o != "E" && o != "B" && o != "Overlap" && o != "OverlapAxes");
        emit(j);
    }
}
static void tables(json const &in) {
    WignerD d;
    int jj = in["jj"];
    double a = angle(in["a"]), c = angle(in["c"]);
    J j("Table");
    j.num("jj", jj).raw("a", in["a"].dump());
    auto one = [&](char const *key, double beta) {
        std::string e = "[";
        for (int r = 0; r <= jj; ++r) {
            e += r ? ",[" : "[";
            for (int k = 0; k <= jj; ++k) {
                double v = d(jj / 2.f, -jj / 2.f + r, -jj / 2.f + k, beta);
                e += (k ? "," : "") + (std::abs(v) < 1e5 ? std::to_string(std::llround(v * 1000)) : std::string("9999999"));
            }
            e += "]";
        }
        j.raw(key, e + "]");
    };
    one("A", a);
    one("C", c);
    one("AC", a + c);
    one("M", -c);
    one("Q", M_PI / 2);
    one("P", M_PI);
    one("F", 2 * M_PI);
    emit(j);
}
template <class S>
static void pair(json const &in) {
    Pool pool(in["pool"]);
    table(pool, in["T"]);
    auto a = atom<S>(pool, in["one"], in["species"][0]), b = atom<S>(pool, in["two"], in["species"][1]);
    for (auto *x : {a.get(), b.get()}) {
        x->setBfield({{0, 0, in["b"].get<double>()}});
        x->diagonalize();
    }
    SystemTwo<S> m(*a, *b, cache);
    m.setConservedParityUnderPermutation(in["perm"] == 0 ? NA : in["perm"] == 1 ? EVEN : ODD);
    J j("Pair");
    j.raw("pool", in["pool"].dump()).raw("t", in["t"].dump());
    json const &t = in["t"];
    attempt(j, "st0", [&] { return pool.pairs(m.getStates()); });
    attempt(j, "B0", [&] { return mat(m.getBasisvectors(), 10000); });
    attempt(j, "H0", [&] { return mat(m.getHamiltonian(), 1000); });
    attempt(j, "res", [&] {
        m.rotate(angle(t[0]), angle(t[1]), angle(t[2]));
        return "true";
    });
    attempt(j, "st", [&] { return pool.pairs(m.getStates()); });
    attempt(j, "B", [&] { return mat(m.getBasisvectors(), 10000); });
    attempt(j, "H", [&] { return mat(m.getHamiltonian(), 1000); });
    emit(j);
}
static V3 vec3(json const &a) { return {{a[0].get<double>(), a[1].get<double>(), a[2].get<double>()}}; }
// which axes and which outer angles are refused
static void axes(json const &in) {
    Pool pool(in["pool"]);
    table(pool, json::object());
    auto m = atom<Cx>(pool, in["st"], "Rb");
    V3 z = vec3(in["z"]), y = vec3(in["y"]);
    m->getStates();
    J j("Orthogonal");
    j.raw("z", in["z"].dump()).raw("y", in["y"].dump());
    attempt(j, "overlap", [&] { m->getOverlap(pool.st[0], z, y); return "true"; });
    attempt(j, "field", [&] { m->setEfield({{0, 0, 1}}, z, y); return "true"; });
    attempt(j, "rotate", [&] { m->rotate(z, y); return "true"; });
    emit(j);
}
static void turns(json const &in) {
    Pool pool(in["pool"]);
    table(pool, json::object());
    auto m = atom<double>(pool, in["st"], "Rb");
    double a = in["a"].get<int>() * M_PI / 2, g = in["g"].get<int>() * M_PI / 2, b = angle(in["b"]);
    J j("Turns");
    j.num("a", in["a"].get<int>()).num("g", in["g"].get<int>()).raw("b", in["b"].dump()).raw("pool", in["pool"].dump());
    j.raw("st", arrf(m->getStates(), [&](StateOne const &s) { return std::to_string(pool.id(s)); }));
    j.raw("B0", mat(m->getBasisvectors(), 10000));
    attempt(j, "overlap", [&] { m->getOverlap(pool.st[0], a, b, g); return "true"; });
    attempt(j, "res", [&] { m->rotate(a, b, g); return "true"; });
    j.raw("B", mat(m->getBasisvectors(), 10000));
    auto n = atom<double>(pool, in["st"], "Rb");
    SystemTwo<double> two(*n, *n, cache);
    two.getStates();
    attempt(j, "two", [&] { two.rotate(a, b, g); return "true"; });
    emit(j);
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        json in = json::parse(line);
        std::string k = in["k"];
        if (k == "history")
            in["cfg"]["cplx"].get<bool>() ? history<Cx>(in["cfg"], in["ops"]) : history<double>(in["cfg"], in["ops"]);
        else if (k == "wigner") {
            WignerD d;
            json const &t = in["t"];
            float jj = in["jj"].get<int>() / 2.f, p = in["p"].get<int>() / 2.f, m = in["m"].get<int>() / 2.f;
            J j("Wigner");
            j.num("jj", in["jj"].get<int>()).num("p", in["p"].get<int>()).num("m", in["m"].get<int>()).raw("t", t.dump());
            j.raw("v", number(d(jj, p, m, angle(t[0]), angle(t[1]), angle(t[2])), 10000));
            j.num("small", std::llround(d(jj, p, m, angle(t[1])) * 10000));
            emit(j);
        } else if (k == "table")
            tables(in);
        else if (k == "axes")
            axes(in);
        else if (k == "turns")
            turns(in);
        else if (k == "pair")
            in["cplx"].get<bool>() ? pair<Cx>(in) : pair<double>(in);
    }
}
