// Conformance driver for perturbative coefficients (PerturbativeInteraction; property C25).
// The dipole elements and level energies are those of specs/Perturb.tla.
#include "Constants.hpp"
#include "PerturbativeInteraction.hpp"
#include "QuantumDefect.hpp"
#include "vlog.hpp"
#include <cmath>
#include <memory>
#include <nlohmann/json.hpp>
using namespace vlog;
using json = nlohmann::json;

static int salt = 0;
static int twice(double x) { return static_cast<int>(std::lround(2 * x)); }
double MatrixElementCache::getElectricDipole(StateOne const &r, StateOne const &c) {
    if (r.getSpecies() != c.getSpecies())
        throw std::runtime_error("The species must be the same for the final and initial state.");
    int jr = twice(r.getJ()), jc = twice(c.getJ()), mr = twice(r.getM()), mc = twice(c.getM());
    if (std::abs(r.getL() - c.getL()) != 1 || std::abs(jr - jc) > 2 || jr + jc == 0 || std::abs(mr - mc) > 2) return 0;
    static double const values[] = {1, -1, 2, -2};
    int h = 7 * (r.getN() + c.getN()) + 5 * r.getL() * c.getL() + 3 * jr * jc + mr * mc + mr + mc + salt + 40000;
    return values[h % 4] * (mr - mc == -2 ? -1 : 1) * (mr == mc ? 1 : std::sqrt(2));
}
double energy_level(std::string const &sp, int n, int l, double j, std::string const &) {
    if (l % 2 == 0) return 0;
    bool strong = sp == "Cs" || sp == "K" || sp == "Ca3";
    int s = std::isdigit(sp.back()) ? sp.back() - '1' : 1;
    return (strong ? 4 : 2) + (n + twice(j) + s) % 4 / 2;
}
static StateOne atom(json const &a) {
    auto q = a.at("q").get<std::vector<int>>();
    return StateOne(a.at("sp").get<std::string>(), q[0], q[1], q[2] / 2.f, q[3] / 2.f);
}
static long long big(double x) { return std::isfinite(x) && std::abs(x) < 1e15 ? std::llround(x) : -1; }
static std::string second(double c6) { // in units of 1 / (625 * 840 * 2), modulo a prime
    long long p = 1000003, v = big(c6 / coulombs_constant / coulombs_constant * 625 * 840 * 2) % p;
    return std::to_string(v < 0 ? v + p : v);
}
static std::string first(double c3) { return std::to_string(big(c3 / coulombs_constant * 25)); }
template <class F>
static std::string table(Eigen::MatrixX<double> const &m, F f) {
    std::string s = "[";
    for (int i = 0; i < m.rows(); ++i) {
        s += i ? ",[" : "[";
        for (int j = 0; j < m.cols(); ++j) s += (j ? "," : "") + f(m(i, j));
        s += "]";
    }
    return s + "]";
}

int main() {
    MatrixElementCache cache;
    std::string line;
    while (std::getline(std::cin, line)) {
        json q = json::parse(line);
        salt = q["salt"];
        int dn = q["dn"], x = q["ax"][0], z = q["ax"][1];
        std::unique_ptr<PerturbativeInteraction> p;
        if (x == 0 && z > 0 && q["default"].get<bool>())
            p = std::make_unique<PerturbativeInteraction>(cache);
        else
            p = std::make_unique<PerturbativeInteraction>(std::atan2(x, z), cache);
        std::vector<StateTwo> st;
        for (auto const &s : q["pairs"]) st.emplace_back(atom(s[0]), atom(s[1]));
        auto ev = [&](char const *e) {
            return J(e).raw("ax", q["ax"].dump()).num("dn", dn).num("salt", salt);
        };
        for (size_t i = 0; i < st.size(); ++i) {
            J j = ev("Single");
            j.raw("pair", q["pairs"][i].dump());
            try {
                std::string r = second(p->getC6(st[i], dn));
                j.raw("r", r).str("o", "ok");
            } catch (std::exception const &e) {
                j.str("o", e.what());
            }
            emit(j);
        }
        J j = ev("Matrix");
        j.raw("pairs", q["pairs"].dump());
        try {
            j.raw("c6", table(p->getC6(st, dn), second)).raw("c3", table(p->getC3(st), first));
            j.raw("e", table(p->getEnergy(st), [](double v) { return std::to_string(big(v)); })).str("o", "ok");
        } catch (std::exception const &e) {
            j.str("o", e.what());
        }
        emit(j);
    }
}
