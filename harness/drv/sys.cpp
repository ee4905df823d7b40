// Conformance driver for the lazily built system (SystemBase; properties C12, C13): a small derived
// class supplies bases, energies and interactions with integer entries, so that every state of the
// system can be compared exactly with the specification.
#include "Constants.hpp"
#include "SystemBase.hpp"
#include "vlog.hpp"
#include <complex>
#include <limits>
#include <memory>
#include <nlohmann/json.hpp>
using namespace vlog;
using json = nlohmann::json;
typedef std::complex<double> Cx;

struct Config {
    json j;
    std::vector<StateOne> pool;
    std::map<std::string, int> label; // labels made by unitarize()
    int id(StateOne const &s) {
        for (size_t i = 0; i < pool.size(); ++i)
            if (pool[i] == s) return i + 1;
        auto it = label.find(s.str());
        if (it == label.end()) it = label.emplace(s.str(), 101 + label.size()).first;
        return it->second;
    }
    StateOne const &state(int id) { return pool.at(id - 1); }
};

template <class S>
S mk(json const &v, int at);
template <>
double mk<double>(json const &v, int at) {
    return v[at].get<double>();
}
template <>
Cx mk<Cx>(json const &v, int at) {
    return Cx(v[at].get<double>(), v[at + 1].get<double>());
}

template <class S>
class Mock : public SystemBase<S, StateOne> {
public:
    typedef Eigen::SparseMatrix<S> M;
    typedef Eigen::Triplet<S> T;
    Mock(Config &c, json const &s) : cfg(&c), def(s) {
        this->memory_saving = s["ms"].get<bool>();
    }
    void setP(double v) {
        this->onParameterChange();
        p = v;
    }
    void setQ(double v) {
        this->onParameterChange();
        q = v;
    }
    void setSymmetry() { this->onSymmetryChange(); }
    size_t index(StateOne const &s) { return this->getStateIndex(s); }

protected:
    void initializeBasis() override {
        std::vector<T> b, h;
        std::vector<StateOne> found;
        auto row = [&](StateOne const &s) {
            for (size_t i = 0; i < found.size(); ++i)
                if (found[i] == s) return i;
            found.push_back(s);
            return found.size() - 1;
        };
        std::vector<int> kept(def["vecs"].size(), -1);
        int n = 0;
        for (size_t k = 0; k < def["vecs"].size(); ++k) {
            bool ok = this->checkIsEnergyValid(def["en"][k].template get<double>());
            for (auto const &t : def["vecs"][k])
                ok = ok && this->checkIsQuantumstateValid(cfg->state(t[0]));
            if (!ok) continue;
            kept[k] = n++;
            h.emplace_back(kept[k], kept[k], def["en"][k].template get<double>());
            for (auto const &t : def["vecs"][k])
                b.emplace_back(row(cfg->state(t[0])), kept[k], mk<S>(t, 1));
        }
        for (auto const &t : def["off"]) {
            int i = kept[t[0].template get<int>() - 1], j = kept[t[1].template get<int>() - 1];
            if (i >= 0 && j >= 0) h.emplace_back(i, j, mk<S>(t, 2));
        }
        for (auto const &s : this->states_to_add) {
            for (auto const &f : found)
                if (f == s) throw std::runtime_error("already contained");
        }
        for (auto const &s : this->states_to_add) {
            b.emplace_back(row(s), n, 1);
            h.emplace_back(n, n, 7);
            ++n;
        }
        for (size_t i = 0; i < found.size(); ++i)
            this->states.push_back(enumerated_state<StateOne>(i, found[i]));
        this->basisvectors.resize(found.size(), n);
        this->basisvectors.setFromTriplets(b.begin(), b.end());
        this->hamiltonian.resize(n, n);
        this->hamiltonian.setFromTriplets(h.begin(), h.end());
    }
    M op(char const *name) {
        std::vector<T> t;
        for (auto const &e : cfg->j[name]) {
            auto i = this->states.template get<1>().find(cfg->state(e[0]));
            auto j = this->states.template get<1>().find(cfg->state(e[1]));
            if (i != this->states.template get<1>().end() &&
                j != this->states.template get<1>().end())
                t.emplace_back(i->idx, j->idx, mk<S>(e, 2));
        }
        M m(this->states.size(), this->states.size());
        m.setFromTriplets(t.begin(), t.end());
        return this->basisvectors.adjoint() * m * this->basisvectors;
    }
    void initializeInteraction() override {
        if (p != 0 && !hasV) {
            V = op("V");
            hasV = true;
        }
        if (q != 0 && !hasW) {
            W = op("W");
            hasW = true;
        }
    }
    void transformInteraction(M const &t) override {
        if (hasV) V = t.adjoint() * V * t;
        if (hasW) W = t.adjoint() * W * t;
    }
    void addInteraction() override {
        if (p != 0) this->hamiltonian += V * S(p);
        if (q != 0) this->hamiltonian += W * S(q);
    }
    void deleteInteraction() override {
        hasV = hasW = false;
        V.resize(0, 0);
        W.resize(0, 0);
    }
    void refl(StateOne const &s, size_t col, std::vector<T> &t) {
        int id = cfg->id(s);
        if (id > static_cast<int>(cfg->pool.size()) || s.isArtificial()) {
            t.emplace_back(this->states.template get<1>().find(s)->idx, col, 1);
            return;
        }
        auto it = this->states.template get<1>().find(s.getReflected());
        if (it != this->states.template get<1>().end())
            t.emplace_back(it->idx, col, s.getM() < 0 ? -1 : 1);
    }
    M rotateStates(std::vector<size_t> const &idx, double, double, double) override {
        std::vector<T> t;
        size_t c = 0;
        for (auto i : idx) refl(this->states[i].state, c++, t);
        M m(this->states.size(), idx.size());
        m.setFromTriplets(t.begin(), t.end());
        return m;
    }
    M buildStaterotator(double, double, double) override {
        std::vector<T> t;
        for (auto const &e : this->states) refl(e.state, e.idx, t);
        M m(this->states.size(), this->states.size());
        m.setFromTriplets(t.begin(), t.end());
        return m;
    }
    void incorporate(SystemBase<S, StateOne> &o) override {
        auto &m = dynamic_cast<Mock<S> &>(o);
        if (p != m.p || q != m.q) throw std::runtime_error("different parameters");
        this->deleteInteraction();
    }

private:
    Config *cfg;
    json def;
    double p{0}, q{0};
    bool hasV{false}, hasW{false};
    M V, W;
};

static std::string milli(Cx v) {
    auto one = [](double x) {
        return std::isfinite(x) && std::abs(x) < 2e6 ? std::to_string(std::llround(x * 1000))
                                                    : std::string("999999999");
    };
    return "[" + one(v.real()) + "," + one(v.imag()) + "]";
}
template <class S>
static std::string mat(Eigen::SparseMatrix<S> const &m) {
    std::string e = "[";
    for (int i = 0; i < m.rows(); ++i) {
        e += i ? ",[" : "[";
        for (int k = 0; k < m.cols(); ++k) e += (k ? "," : "") + milli(m.coeff(i, k));
        e += "]";
    }
    return "{\"r\":" + std::to_string(m.rows()) + ",\"c\":" + std::to_string(m.cols()) +
        ",\"e\":" + e + "]}";
}
static std::string reals(Eigen::VectorX<double> const &v) {
    std::string s = "[";
    for (int i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(std::llround(v[i] * 1000));
    return s + "]";
}

template <class S>
static void history(Config &c, json const &ops) {
    std::vector<std::unique_ptr<Mock<S>>> sys;
    for (auto const &s : c.j["sys"]) sys.push_back(std::make_unique<Mock<S>>(c, s));
    auto ids = [&](std::vector<StateOne> const &v) {
        return arrf(v, [&](StateOne const &s) { return std::to_string(c.id(s)); });
    };
    auto attempt = [&](J &j, char const *key, std::function<std::string()> f) {
        std::string r, e = "none";
        try {
            r = f();
        } catch (std::exception const &x) {
            e = "error";
        }
        if (e == "none") j.raw(key, r);
        j.raw(std::string(key) + "_err", e == "none" ? "false" : "true");
        return e == "none";
    };
    auto peek = [&](Mock<S> const &orig) {
        J j;
        { Mock<S> m(orig); attempt(j, "st", [&] { return ids(m.getStates()); }); }
        { Mock<S> m(orig); attempt(j, "B", [&] { return mat(m.getBasisvectors()); }); }
        { Mock<S> m(orig); attempt(j, "H", [&] { return mat(m.getHamiltonian()); });
          attempt(j, "BH", [&] { return mat(m.getBasisvectors()); }); }
        return j.done();
    };
    for (auto const &op : ops) {
        std::string o = op["o"];
        size_t x = op["s"].get<int>() - 1;
        json const &a = op["a"];
        Mock<S> &m = *sys[x];
        J j(o);
        j.num("s", x + 1).raw("a", a.dump());
        auto st = [&](int at) { return c.state(a[at]); };
        auto sts = [&] {
            std::vector<StateOne> v;
            for (auto const &i : a) v.push_back(c.state(i));
            return v;
        };
        attempt(j, "res", [&]() -> std::string {
            if (o == "N" || o == "L") {
                std::set<int> s(a.begin(), a.end());
                o == "N" ? m.restrictN(s) : m.restrictL(s);
            } else if (o == "J" || o == "M") {
                std::set<float> s;
                for (auto const &v : a) s.insert(v.get<int>() / 2.f);
                o == "J" ? m.restrictJ(s) : m.restrictM(s);
            } else if (o == "NR")
                m.restrictN(a[0].get<int>(), a[1].get<int>());
            else if (o == "LR")
                m.restrictL(a[0].get<int>(), a[1].get<int>());
            else if (o == "JR")
                m.restrictJ(a[0].get<int>() / 2.f, a[1].get<int>() / 2.f);
            else if (o == "MR")
                m.restrictM(a[0].get<int>() / 2.f, a[1].get<int>() / 2.f);
            else if (o == "Energy")
                m.restrictEnergy(a[0].get<int>() == 99 ? std::numeric_limits<double>::lowest() : a[0].get<double>(),
                                 a[1].get<int>() == 99 ? std::numeric_limits<double>::max() : a[1].get<double>());
            else if (o == "Norm")
                m.setMinimalNorm(a.get<int>() / 1000.);
            else if (o == "AddStates") {
                auto v = sts();
                if (v.size() == 1)
                    m.addStates(v[0]);
                else
                    m.addStates(std::set<StateOne>(v.begin(), v.end()));
            } else if (o == "P")
                m.setP(a.get<double>());
            else if (o == "Q")
                m.setQ(a.get<double>());
            else if (o == "Sym")
                m.setSymmetry();
            else if (o == "BuildB")
                m.buildBasis();
            else if (o == "BuildI")
                m.buildInteraction();
            else if (o == "BuildH")
                m.buildHamiltonian();
            else if (o == "States")
                return ids(m.getStates());
            else if (o == "MultiIndex") {
                std::vector<StateOne> v;
                size_t n = 0;
                for (auto const &e : m.getStatesMultiIndex()) {
                    if (e.idx != n++) return "\"index\"";
                    v.push_back(e.state);
                }
                return ids(v);
            } else if (o == "NumStates")
                return std::to_string(m.getNumStates());
            else if (o == "NumVec")
                return std::to_string(m.getNumBasisvectors());
            else if (o == "Basis")
                return mat(m.getBasisvectors());
            else if (o == "Ham")
                return mat(m.getHamiltonian());
            else if (o == "Overlap") {
                auto v = sts();
                return reals(v.size() == 1 ? m.getOverlap(v[0]) : m.getOverlap(v));
            } else if (o == "OverlapRot") {
                auto v = sts();
                return reals(v.size() == 1 ? m.getOverlap(v[0], 0, 1, 0) : m.getOverlap(v, 0, 1, 0));
            } else if (o == "Wild") {
                auto f = [&](int i) { return a[i].get<int>() == 99 ? ARB : a[i].get<int>() / 2.f; };
                return reals(m.getOverlap(StateOne("Rb", a[0].get<int>() == 99 ? ARB : a[0].get<int>(),
                                                   a[1].get<int>() == 99 ? ARB : a[1].get<int>(), f(2), f(3))));
            } else if (o == "OverlapIdx") {
                // (the library does not check indices of states)
                std::vector<size_t> v(a.begin(), a.end());
                {
                    Mock<S> copy(m);
                    for (auto i : v)
                        if (i >= copy.getNumStates()) {
                            m.buildBasis();
                            throw std::runtime_error("index");
                        }
                }
                return reals(v.size() == 1 ? m.getOverlap(v[0]) : m.getOverlap(v));
            } else if (o == "Main")
                return ids(m.getMainStates());
            else if (o == "StateIdx") {
                auto v = sts();
                if (v.size() == 1) return "[" + std::to_string(m.getStateIndex(v[0])) + "]";
                return arr(m.getStateIndex(v));
            } else if (o == "VecIdx") {
                auto v = sts();
                if (v.size() == 1) return "[" + std::to_string(static_cast<long long>(m.getBasisvectorIndex(v[0]))) + "]";
                return arr(m.getBasisvectorIndex(v));
            } else if (o == "Entry")
                return milli(m.getHamiltonianEntry(st(0), st(1)));
            else if (o == "Connect") {
                auto r = m.getConnections(*sys[1 - x], a.get<int>() / 1000.);
                return "[" + arr(r[0]) + "," + arr(r[1]) + "]";
            } else if (o == "Constrain")
                m.constrainBasisvectors(std::vector<size_t>(a.begin(), a.end()));
            else if (o == "Join")
                m.add(*sys[1 - x]);
            else if (o == "SetEntry")
                m.setHamiltonianEntry(st(0), st(1), mk<S>(a, 2));
            else if (o == "AddEntry")
                m.addHamiltonianEntry(st(0), st(1), mk<S>(a, 2));
            else if (o == "Canon")
                m.canonicalize();
            else if (o == "Rotate")
                m.rotate(0, 1, 0);
            else if (o == "Diag")
                m.diagonalize();
            else if (o == "Forget")
                m.forgetStatemixing();
            else if (o == "Unit") {
                m.unitarize();
                return ids(m.getStates());
            } else if (o == "Copy")
                sys[1 - x] = std::make_unique<Mock<S>>(m);
            else if (o == "Assign")
                *sys[1 - x] = m;
            else
                throw std::logic_error("unknown operation " + o);
            return "\"ok\"";
        });
        j.raw("pk", "[" + peek(*sys[0]) + "," + peek(*sys[1]) + "]");
        emit(j);
    }
}

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        json h = json::parse(line);
        Config c;
        c.j = h["cfg"];
        int k = 0;
        for (auto const &p : c.j["pool"]) {
            ++k;
            c.pool.push_back(p[0].get<int>() < 0
                                 ? StateOne("A" + std::to_string(k))
                                 : StateOne("Rb", p[0].get<int>(), p[1].get<int>(),
                                            p[2].get<int>() / 2.f, p[3].get<int>() / 2.f));
        }
        std::set<StateOne> sorted(c.pool.begin(), c.pool.end());
        J j("Start");
        j.raw("cfg", c.j.dump());
        j.raw("order", arrf(std::vector<StateOne>(sorted.begin(), sorted.end()),
                            [&](StateOne const &s) { return std::to_string(c.id(s)); }));
        emit(j);
        if (c.j["cplx"].get<bool>())
            history<Cx>(c, h["ops"]);
        else
            history<double>(c, h["ops"]);
    }
    return 0;
}
