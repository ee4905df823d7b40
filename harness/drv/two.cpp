// Conformance driver for two-atom systems (SystemTwo; properties C16 and C17).
#include "Constants.hpp"
#include "SystemTwo.hpp"
#include "fakeelem.hpp"
#include "vlog.hpp"
#include <cereal/archives/binary.hpp>
#include <complex>
#include <limits>
#include <memory>
#include <nlohmann/json.hpp>
using namespace vlog;
using json = nlohmann::json;
typedef std::complex<double> Cx;

// dipole, quadrupole and octupole elements in units in which their Cartesian components are integers
static double strength = 1;
double MatrixElementCache::getElectricMultipole(StateOne const &r, StateOne const &c, int k) {
    if (fake::vanishes(r, c, k)) return 0;
    int q = std::abs(std::lround(r.getM() - c.getM()));
    double s = strength * fake::sign(r, c);
    switch (k) {
    case 0: return s * 6 * fake::table("M", r, c);
    case 1: return s * (q ? std::sqrt(2) : 1) * fake::table("E", r, c) / strength;
    case 2: return s * (q ? 2 * std::sqrt(6) : 6) * fake::table("Q", r, c);
    case 3: return s * (q ? std::sqrt(3) : 1) * fake::table("O", r, c);
    }
    throw std::logic_error("multipole of unexpected order");
}
double MatrixElementCache::getRadial(StateOne const &, StateOne const &, int) { return 1e-8; }

static MatrixElementCache cache;
static std::string number(Cx v, double unit) {
    auto one = [&](double x) {
        return std::isfinite(x) && std::abs(x * unit) < 1e9 ? std::to_string(std::llround(x * unit))
                                                            : std::string("999999999");
    };
    return "[" + one(v.real()) + "," + one(v.imag()) + "]";
}
template <class S>
static std::string mat(Eigen::SparseMatrix<S> const &m, double unit) {
    std::string e = "[";
    for (int i = 0; i < m.rows(); ++i) {
        e += i ? ",[" : "[";
        for (int k = 0; k < m.cols(); ++k) e += (k ? "," : "") + number(m.coeff(i, k), unit);
        e += "]";
    }
    return "{\"r\":" + std::to_string(m.rows()) + ",\"c\":" + std::to_string(m.cols()) +
        ",\"e\":" + e + "]}";
}
static char const *name[] = {"Rb", "Cs", "Sr1", "Sr3"};
static StateOne state(json const &s) {
    if (s[0].get<int>() < 0) return StateOne("label" + std::to_string(-s[0].get<int>()));
    return StateOne(name[s[4].get<int>()], s[0], s[1], s[2].get<int>() / 2.f, s[3].get<int>() / 2.f);
}
static bool attempt(J &j, char const *key, std::function<std::string()> f) {
    std::string r;
    bool ok = true;
    try {
        r = f();
    } catch (std::exception const &x) {
        ok = false;
        if (getenv("DEBUG")) std::cerr << x.what() << std::endl;
    }
    if (ok) j.raw(key, r);
    j.raw(std::string(key) + "_err", ok ? "false" : "true");
    return ok;
}
static parity_t parity(json const &p) {
    return p.get<int>() == 0 ? NA : p.get<int>() > 0 ? EVEN : ODD;
}
struct Pool {
    std::vector<StateOne> st;
    explicit Pool(json const &p) {
        for (auto const &s : p) st.push_back(state(s));
    }
    int id(StateOne const &s) const {
        for (size_t i = 0; i < st.size(); ++i)
            if (st[i] == s) return static_cast<int>(i) + 1;
        return 0;
    }
    std::string pairs(std::vector<StateTwo> const &v) const {
        return arrf(v, [&](StateTwo const &s) {
            return "[" + std::to_string(id(s.getFirstState())) + "," + std::to_string(id(s.getSecondState())) + "]";
        });
    }
};
template <class S>
static std::unique_ptr<SystemOne<S>> atom(Pool const &pool, json const &ids, int species) {
    auto m = std::make_unique<SystemOne<S>>(name[species], cache);
    m->restrictN(std::set<int>{1});
    m->restrictL(std::set<int>{3});
    std::set<StateOne> v;
    for (auto const &i : ids) v.insert(pool.st[i.get<int>() - 1]);
    m->addStates(v);
    return m;
}
static int species(json const &pool, json const &ids) {
    for (auto const &i : ids)
        if (pool[i.get<int>() - 1][0].get<int>() > 0) return pool[i.get<int>() - 1][4];
    return 0;
}

// a history of geometries and questions
template <class S>
static void history(json const &cfg, json const &ops) {
    Pool pool(cfg["pool"]);
    fake::table = [&](std::string const &k, StateOne const &r, StateOne const &c) {
        int a = pool.id(r) - 1, b = pool.id(c) - 1;
        if (a < 0 || b < 0 || !cfg["T"].contains(k)) return 0.;
        return cfg["T"][k][std::min(a, b)][std::max(a, b)].get<double>() * (k == "E" ? strength : 1);
    };
    strength = std::sqrt(cfg["u"]["U"].get<double>() / coulombs_constant);
    std::vector<std::unique_ptr<SystemTwo<S>>> sys;
    for (auto const &s : cfg["sys"]) {
        auto a = atom<S>(pool, s["a"], species(cfg["pool"], s["a"])), b = atom<S>(pool, s["b"], species(cfg["pool"], s["b"]));
        auto m = std::make_unique<SystemTwo<S>>(*a, *b, cache, s["ms"].get<bool>());
        m->setConservedParityUnderPermutation(parity(s["perm"]));
        sys.push_back(std::move(m));
    }
    for (auto const &op : ops) {
        std::string o = op["o"];
        size_t x = op["s"].get<int>() - 1;
        json const &a = op["a"];
        SystemTwo<S> &m = *sys[x];
        J j(o);
        j.num("s", x + 1).raw("a", a.dump());
        attempt(j, "res", [&]() -> std::string {
            if (o == "Dist")
                m.setDistance(a.get<int>() == 0 ? std::numeric_limits<double>::max() : a.get<double>());
            else if (o == "Vec") {
                double f = a[2].get<double>() / a[1].get<double>();
                m.setDistanceVector({{a[0][0].get<double>() * f, a[0][1].get<double>() * f, a[0][2].get<double>() * f}});
            } else if (o == "Angle")
                m.setAngle(std::atan2(a[0][0].get<double>(), a[0][2].get<double>()));
            else if (o == "Order")
                m.setOrder(a.get<double>());
            else if (o == "GT")
                m.enableGreenTensor(a.get<bool>());
            else if (o == "Surf")
                m.setSurfaceDistance(a.get<int>() == 0 ? std::numeric_limits<double>::max() : a.get<double>() / 2);
            else if (o == "States")
                m.getStates();
            else if (o == "Basis")
                m.getBasisvectors();
            else if (o == "BuildI")
                m.buildInteraction();
            else if (o == "Ham")
                m.buildHamiltonian();
            else if (o == "Diag")
                m.diagonalize();
            else if (o == "Canon")
                m.canonicalize();
            else if (o == "Constrain") {
                std::vector<size_t> v(a.begin(), a.end());
                m.constrainBasisvectors(v);
            } else if (o == "Join")
                m.add(*sys[1 - x]);
            else if (o == "Copy") {
                auto copy = std::make_unique<SystemTwo<S>>(m);
                sys[x] = std::move(copy);
            } else if (o == "Save") {
                std::stringstream ss;
                {
                    cereal::BinaryOutputArchive out(ss);
                    out(m);
                }
                json none = json::array();
                auto one = atom<S>(pool, none, 0);
                auto copy = std::make_unique<SystemTwo<S>>(*one, *one, cache);
                {
                    cereal::BinaryInputArchive in(ss);
                    in(*copy);
                }
                sys[x] = std::move(copy);
            } else
                throw std::logic_error("unknown operation " + o);
            return "true";
        });
        if (o == "Ham") {
            SystemTwo<S> &m = *sys[x];
            attempt(j, "H", [&] { return mat(m.getHamiltonian(), 1); });
            attempt(j, "B", [&] { return mat(m.getBasisvectors(), 1000); });
            attempt(j, "st", [&] { return pool.pairs(m.getStates()); });
        }
        emit(j);
    }
}

// a request for a basis
template <class S>
static std::unique_ptr<SystemOne<S>> vectors(Pool const &pool, json const &o) {
    std::string kind = o["kind"];
    auto m = atom<S>(pool, o["ids"], o["species"]);
    auto vec = [](json const &v) { return std::array<double, 3>{{v[0], v[1], v[2]}}; };
    if (kind != "plain") m->setConservedParityUnderReflection(kind == "odd" ? ODD : EVEN);
    if (kind == "both") {
        auto n = atom<S>(pool, o["ids"], o["species"]);
        n->setConservedParityUnderReflection(ODD);
        m->add(*n);
    }
    m->setEfield(vec(o["e"]));
    m->setBfield(vec(o["b"]));
    return m;
}
template <class S>
static std::string report(Pool const &pool, SystemOne<S> &m) {
    m.diagonalize();
    auto h = m.getHamiltonian();
    auto b = mat(m.getBasisvectors(), 1000);
    std::string e;
    for (int i = 0; i < h.cols(); ++i) e += (i ? "," : "") + std::to_string(std::llround(std::real(h.coeff(i, i)) * 1000));
    auto st = arrf(m.getStates(), [&](StateOne const &s) { return std::to_string(pool.id(s)); });
    return "{\"st\":" + st + ",\"B\":" + b.substr(b.find("\"e\":") + 4, b.size() - b.find("\"e\":") - 5) +
        ",\"k\":" + std::to_string(h.cols()) + ",\"E\":[" + e + "]}";
}
template <class S>
static void request(json const &q) {
    Pool pool(q["pool"]);
    strength = 1;
    fake::table = [&](std::string const &k, StateOne const &r, StateOne const &c) {
        int a = pool.id(r) - 1, b = pool.id(c) - 1;
        if (a < 0 || b < 0 || !q["T"].contains(k)) return 0.;
        return q["T"][k][std::min(a, b)][std::max(a, b)].get<double>();
    };
    bool same = q["same"];
    try {
        vectors<S>(pool, q["one"])->getStates();
        vectors<S>(pool, q["two"])->getStates();
    } catch (std::exception const &) { // no state has the mirror symmetry
        J j("Unusable");
        j.raw("one", q["one"].dump()).raw("two", q["two"].dump()).raw("pool", q["pool"].dump());
        emit(j);
        return;
    }
    auto a = vectors<S>(pool, q["one"]), b = same ? nullptr : vectors<S>(pool, q["two"]);
    auto &second = same ? *a : *b;
    J j("Request");
    std::string ra, rb;
    if (!q["late"].get<bool>()) {
        ra = report(pool, *a);
        rb = report(pool, second);
    }
    auto m = std::make_unique<SystemTwo<S>>(*a, second, cache, q["ms"].get<bool>());
    if (ra.empty()) {
        ra = report(pool, *a);
        rb = report(pool, second);
    }
    json out = {{"pool", q["pool"]}, {"species", json::array({q["one"]["species"], q["two"]["species"]})}};
    for (auto k : {"same", "n", "l", "j", "m", "en", "perm", "inv", "refl", "rot", "rotfirst", "pairs", "add"}) out[k] = q[k];
    json zero = json::array({0, 0, 0});
    out["field"] = !(q["one"]["e"] == zero && q["one"]["b"] == zero && q["two"]["e"] == zero && q["two"]["b"] == zero);
    out["one"] = json::parse(ra);
    out["two"] = json::parse(rb);
    j.raw("q", out.dump());
    m->setMinimalNorm(1e-7);
    auto ints = [](json const &v) { return std::set<int>(v.begin(), v.end()); };
    auto halves = [](json const &v) {
        std::set<float> s;
        for (auto const &x : v) s.insert(x.get<int>() / 2.f);
        return s;
    };
    if (!q["n"].empty()) m->restrictN(ints(q["n"]));
    if (!q["l"].empty()) m->restrictL(ints(q["l"]));
    if (!q["j"].empty()) m->restrictJ(halves(q["j"]));
    if (!q["m"].empty()) m->restrictM(halves(q["m"]));
    double lo = q["en"][0], hi = q["en"][1];
    if (lo != 9999 || hi != 9999)
        m->restrictEnergy(lo == 9999 ? -1e9 : lo, hi == 9999 ? 1e9 : hi);
    auto rot = [&] {
        attempt(j, "rot", [&] {
            if (!q["rot"].empty()) m->setConservedMomentaUnderRotation(ints(q["rot"]));
            return "1";
        });
    };
    if (q["rotfirst"]) rot();
    attempt(j, "refl", [&] {
        m->setConservedParityUnderReflection(parity(q["refl"]));
        return "1";
    });
    if (!q["rotfirst"]) rot();
    m->setConservedParityUnderPermutation(parity(q["perm"]));
    m->setConservedParityUnderInversion(parity(q["inv"]));
    if (!q["add"].empty()) {
        std::set<StateTwo> v;
        for (auto const &p : q["add"]) v.insert(StateTwo(pool.st[p[0].get<int>() - 1], pool.st[p[1].get<int>() - 1]));
        m->addStates(v);
    }
    if (!q["pairs"].empty())
        attempt(j, "pairs", [&] {
            std::vector<std::array<size_t, 2>> v;
            for (auto const &p : q["pairs"]) v.push_back({{p[0], p[1]}});
            m->setOneAtomBasisvectors(v);
            return "1";
        });
    else
        j.raw("pairs_err", "false");
    if (q["way"] == "copy") {
        auto n = std::make_unique<SystemTwo<S>>(*m);
        m = std::move(n);
    } else if (q["way"] == "save") {
        std::stringstream ss;
        {
            cereal::BinaryOutputArchive ar(ss);
            ar(*m);
        }
        json none = json::array();
        auto one = atom<S>(pool, none, 0);
        m = std::make_unique<SystemTwo<S>>(*one, *one, cache);
        {
            cereal::BinaryInputArchive ar(ss);
            ar(*m);
        }
    }
    attempt(j, "st", [&] { return pool.pairs(m->getStates()); });
    attempt(j, "B", [&] { return mat(m->getBasisvectors(), 1000); });
    attempt(j, "H", [&] { return mat(m->getHamiltonian(), 1000); });
    auto ids = [&](std::vector<StateOne> const &v) {
        return arrf(v, [&](StateOne const &s) { return std::to_string(pool.id(s)); });
    };
    attempt(j, "first", [&] { return ids(m->getStatesFirst()); });
    attempt(j, "second", [&] { return ids(m->getStatesSecond()); });
    emit(j);
}

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        json in = json::parse(line);
        if (in.contains("ops")) {
            J j("Start");
            j.raw("cfg", in["cfg"].dump());
            emit(j);
            in["cfg"]["cplx"].get<bool>() ? history<Cx>(in["cfg"], in["ops"]) : history<double>(in["cfg"], in["ops"]);
        } else {
            in["cplx"].get<bool>() ? request<Cx>(in) : request<double>(in);
        }
    }
}
