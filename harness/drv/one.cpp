// Conformance driver for one-atom systems (SystemOne; properties C14 and C15).
#include "Constants.hpp"
#include "SystemOne.hpp"
#include "fakeelem.hpp"
#include "vlog.hpp"
#include <cereal/archives/binary.hpp>
#include <complex>
#include <limits>
#include <memory>
#include <nlohmann/json.hpp>
using namespace vlog;
using json = nlohmann::json;
typedef std::complex<double> Cx;

double MatrixElementCache::getElectricMultipole(StateOne const &r, StateOne const &c, int k) {
    return fake::vanishes(r, c, k) ? 0
        : fake::sign(r, c) * 16 / (coulombs_constant * elementary_charge) *
            fake::table("I" + std::to_string(k), r, c);
}

static MatrixElementCache cache;
static std::string milli(Cx v) {
    auto one = [](double x) {
        return std::isfinite(x) && std::abs(x) < 2e6 ? std::to_string(std::llround(x * 1000))
                                                    : std::string("999999999");
    };
    return "[" + one(v.real()) + "," + one(v.imag()) + "]";
}
template <class S>
static std::string mat(Eigen::SparseMatrix<S> const &m) {
    std::string e = "[";
    for (int i = 0; i < m.rows(); ++i) {
        e += i ? ",[" : "[";
        for (int k = 0; k < m.cols(); ++k) e += (k ? "," : "") + milli(m.coeff(i, k));
        e += "]";
    }
    return "{\"r\":" + std::to_string(m.rows()) + ",\"c\":" + std::to_string(m.cols()) +
        ",\"e\":" + e + "]}";
}
static StateOne state(std::string const &species, json const &s) {
    if (s[0].get<int>() < 0) return StateOne("label" + std::to_string(-s[0].get<int>()));
    return StateOne(species, s[0], s[1], s[2].get<int>() / 2.f, s[3].get<int>() / 2.f);
}
static std::string numbers(StateOne const &s) {
    if (s.isArtificial()) return "[-" + s.getLabel().substr(5) + ",0,0,0]";
    return "[" + std::to_string(s.getN()) + "," + std::to_string(s.getL()) + "," +
        std::to_string(std::lround(2 * s.getJ())) + "," + std::to_string(std::lround(2 * s.getM())) + "]";
}
static bool attempt(J &j, char const *key, std::function<std::string()> f) {
    std::string r;
    bool ok = true;
    try {
        r = f();
    } catch (std::exception const &x) {
        ok = false;
        if (getenv("DEBUG")) std::cerr << x.what() << std::endl;
    }
    if (ok) j.raw(key, r);
    j.raw(std::string(key) + "_err", ok ? "false" : "true");
    return ok;
}
static std::set<float> halves(json const &a) {
    std::set<float> s;
    for (auto const &v : a) s.insert(v.get<int>() / 2.f);
    return s;
}
static parity_t parity(json const &p) {
    return p.get<int>() == 0 ? NA : p.get<int>() > 0 ? EVEN : ODD;
}

// a history of settings and questions
template <class S>
static void history(json const &cfg, json const &ops) {
    std::vector<StateOne> pool;
    for (auto const &s : cfg["pool"]) pool.push_back(state("Rb", s));
    auto id = [&](StateOne const &s) {
        for (size_t i = 0; i < pool.size(); ++i)
            if (pool[i] == s) return static_cast<int>(i);
        return -1;
    };
    fake::table = [&](std::string const &k, StateOne const &r, StateOne const &c) {
        int a = id(r), b = id(c);
        if (a < 0 || b < 0 || !cfg["T"].contains(k)) return 0.;
        return cfg["T"][k][std::min(a, b)][std::max(a, b)].get<double>();
    };
    auto ids = [&](std::vector<StateOne> const &v) {
        return arrf(v, [&](StateOne const &s) { return std::to_string(id(s) + 1); });
    };
    std::vector<std::unique_ptr<SystemOne<S>>> sys;
    for (auto const &s : cfg["sys"]) {
        auto m = std::make_unique<SystemOne<S>>("Rb", cache, s["ms"].get<bool>());
        m->restrictN(std::set<int>{1});
        m->restrictL(std::set<int>{3});
        std::set<StateOne> v;
        for (auto const &i : s["st"]) v.insert(pool[i.get<int>() - 1]);
        m->addStates(v);
        m->setConservedParityUnderReflection(parity(s["refl"]));
        sys.push_back(std::move(m));
    }
    for (auto const &op : ops) {
        std::string o = op["o"];
        size_t x = op["s"].get<int>() - 1;
        json const &a = op["a"];
        SystemOne<S> &m = *sys[x];
        J j(o);
        j.num("s", x + 1).raw("a", a.dump());
        auto vec = [](json const &v) { return std::array<double, 3>{{v[0], v[1], v[2]}}; };
        auto turn = [](json const &v) { return v.get<int>() * M_PI / 2; };
        attempt(j, "res", [&]() -> std::string {
            if (o == "E")
                m.setEfield(vec(a));
            else if (o == "B")
                m.setBfield(vec(a));
            else if (o == "EAxes")
                m.setEfield(vec(a[0]), vec(a[1]), vec(a[2]));
            else if (o == "BAxes")
                m.setBfield(vec(a[0]), vec(a[1]), vec(a[2]));
            else if (o == "ETurn")
                m.setEfield(vec(a[0]), turn(a[1][0]), turn(a[1][1]), turn(a[1][2]));
            else if (o == "BTurn")
                m.setBfield(vec(a[0]), turn(a[1][0]), turn(a[1][1]), turn(a[1][2]));
            else if (o == "Dia")
                m.enableDiamagnetism(a.get<bool>());
            else if (o == "Charge")
                m.setIonCharge(a.get<int>());
            else if (o == "Order")
                m.setRydIonOrder(a.get<unsigned int>());
            else if (o == "Dist")
                m.setRydIonDistance(a.get<int>() == 0 ? std::numeric_limits<double>::max() : a.get<double>());
            else if (o == "States")
                m.getStates();
            else if (o == "Basis")
                m.getBasisvectors();
            else if (o == "BuildI")
                m.buildInteraction();
            else if (o == "Ham")
                m.buildHamiltonian();
            else if (o == "Diag")
                m.diagonalize();
            else if (o == "Canon")
                m.canonicalize();
            else if (o == "Constrain") {
                std::vector<size_t> v(a.begin(), a.end());
                m.constrainBasisvectors(v);
            } else if (o == "Join")
                m.add(*sys[1 - x]);
            else if (o == "Copy") {
                auto copy = std::make_unique<SystemOne<S>>(m);
                sys[x] = std::move(copy);
            } else if (o == "Save") {
                std::stringstream ss;
                {
                    cereal::BinaryOutputArchive out(ss);
                    out(m);
                }
                auto copy = std::make_unique<SystemOne<S>>("Rb", cache);
                {
                    cereal::BinaryInputArchive in(ss);
                    in(*copy);
                }
                sys[x] = std::move(copy);
            } else
                throw std::logic_error("unknown operation " + o);
            return "true";
        });
        if (o == "Ham") {
            SystemOne<S> &m = *sys[x];
            attempt(j, "H", [&] { return mat(m.getHamiltonian()); });
            attempt(j, "B", [&] { return mat(m.getBasisvectors()); });
            attempt(j, "st", [&] { return ids(m.getStates()); });
        }
        emit(j);
    }
}

// one request for a basis
template <class S>
static void request(json const &q) {
    J j("Request");
    j.raw("q", q.dump());
    std::string species = q["species"];
    fake::table = [](std::string const &, StateOne const &, StateOne const &) { return 0.; };
    SystemOne<S> m(species, cache);
    auto ask = [&](json const &q) {
        if (!q["n"].empty()) m.restrictN(q["n"].get<std::set<int>>());
        if (!q["l"].empty()) m.restrictL(q["l"].get<std::set<int>>());
        if (!q["j"].empty()) m.restrictJ(halves(q["j"]));
        if (!q["m"].empty()) m.restrictM(halves(q["m"]));
        if (q["en"][0].get<int>() != 99 || q["en"][1].get<int>() != 99)
            m.restrictEnergy(q["en"][0].get<int>() == 99 ? std::numeric_limits<double>::lowest() : q["en"][0].get<double>(),
                             q["en"][1].get<int>() == 99 ? std::numeric_limits<double>::max() : q["en"][1].get<double>());
        std::set<StateOne> v;
        for (auto const &s : q["add"]) v.insert(state(s.size() > 4 ? s[4].get<std::string>() : species, s));
        if (v.size() == 1)
            m.addStates(*v.begin());
        else if (!v.empty())
            m.addStates(v);
    };
    ask(q);
    auto reflection = [&] {
        attempt(j, "refl", [&] {
            m.setConservedParityUnderReflection(parity(q["refl"]));
            return "true";
        });
    };
    if (!q["rotfirst"].get<bool>()) reflection();
    attempt(j, "rot", [&] {
        if (!q["rot"].empty()) m.setConservedMomentaUnderRotation(halves(q["rot"]));
        return "true";
    });
    if (q["rotfirst"].get<bool>()) reflection();
    attempt(j, "st", [&] { return arrf(m.getStates(), numbers); });
    attempt(j, "B", [&] { return mat(m.getBasisvectors()); });
    attempt(j, "H", [&] { return mat(m.getHamiltonian()); });
    emit(j);
}

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        json in = json::parse(line);
        if (in.contains("ops")) {
            J j("Start");
            j.raw("cfg", in["cfg"].dump());
            emit(j);
            in["cfg"]["cplx"].get<bool>() ? history<Cx>(in["cfg"], in["ops"]) : history<double>(in["cfg"], in["ops"]);
        } else
            in["cplx"].get<bool>() ? request<Cx>(in) : request<double>(in);
    }
}
