// Physics does not depend on the coordinates: operators of fields and of the interaction, with the
// library's own matrix elements (property C24).
#include "Constants.hpp"
#include "MatrixElementCache.hpp"
#include "SystemTwo.hpp"
#include "rotcommon.hpp"

static MatrixElementCache cache;
template <class S>
static std::unique_ptr<SystemOne<S>> atom(Pool const &pool, json const &ids) {
    auto m = std::make_unique<SystemOne<S>>(pool.st[ids[0].get<int>() - 1].getSpecies(), cache);
    m->restrictN(std::set<int>{1});
    m->restrictL(std::set<int>{3});
    std::set<StateOne> v;
    for (auto const &i : ids) v.insert(pool.st[i.get<int>() - 1]);
    m->addStates(v);
    return m;
}
typedef std::array<double, 3> V;
static double dot(V const &a, V const &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
// the coordinates of a vector after the coordinate system was rotated
static V seen(json const &t, V const &v) { return {{dot(newx(t), v), dot(newy(t), v), dot(newz(t), v)}}; }
static V vec(json const &v) { return {{v[0], v[1], v[2]}}; }
template <class S>
static void matrices(J &j, std::vector<std::pair<char const *, Eigen::SparseMatrix<S>>> const &ms) {
    double top = 0;
    for (int i = 0; i < ms[0].second.rows(); ++i)
        for (int k = 0; k < ms[0].second.cols(); ++k) top = std::max(top, std::abs(ms[0].second.coeff(i, k)));
    for (auto const &m : ms) j.raw(m.first, mat(m.second, 1000 / (top > 0 ? top : 1)));
}
// the part of the Hamiltonian that is due to fields
template <class M, class F>
static auto part(M const &base, F f) {
    M with(base), without(base);
    f(with);
    with.canonicalize();
    without.canonicalize();
    auto a = with.getHamiltonian();
    auto b = without.getHamiltonian();
    return typename std::decay<decltype(a)>::type(a - b);
}
static void one(json const &in) {
    Pool pool(in["pool"]);
    auto a = atom<Cx>(pool, in["one"]);
    json const &t = in["t"];
    V e = vec(in["e"]), b = vec(in["b"]);
    double x = angle(t[0]), y = angle(t[1]), z = angle(t[2]);
    using M = SystemOne<Cx>;
    a->enableDiamagnetism(in["dia"].get<bool>());
    a->getStates();
    J j("Covariant");
    j.raw("pairs", "false").raw("t", t.dump()).raw("pool", in["pool"].dump());
    j.raw("st", arrf(a->getStates(), [&](StateOne const &s) { return std::to_string(pool.id(s)); }));
    attempt(j, "res", [&] {
        matrices<Cx>(j, {{"plain", part(*a, [&](M &m) { m.setEfield(e); m.setBfield(b); })},
                         {"before", part(*a, [&](M &m) { m.setEfield(e); m.setBfield(b); m.rotate(x, y, z); })},
                         {"after", part(*a, [&](M &m) { m.setEfield(seen(t, e)); m.setBfield(seen(t, b)); })},
                         {"turned", part(*a, [&](M &m) { m.setEfield(e, x, y, z); m.setBfield(b, newz(t), newy(t)); })}});
        return "true";
    });
    emit(j);
}
static void two(json const &in) {
    Pool pool(in["pool"]);
    auto a = atom<Cx>(pool, in["one"]), b = atom<Cx>(pool, in["two"]);
    json const &t = in["t"];
    V r = vec(in["r"]);
    double x = angle(t[0]), y = angle(t[1]), z = angle(t[2]);
    using M = SystemTwo<Cx>;
    M base(*a, *b, cache);
    if (in["gt"].get<bool>()) base.enableGreenTensor(true);
    base.setOrder(in["order"].get<double>());
    base.getStates();
    J j("Covariant");
    j.raw("pairs", "true").raw("t", t.dump()).raw("pool", in["pool"].dump());
    j.raw("st", pool.pairs(base.getStates()));
    attempt(j, "res", [&] {
        matrices<Cx>(j, {{"plain", part(base, [&](M &m) { m.setDistanceVector(r); })},
                         {"before", part(base, [&](M &m) { m.setDistanceVector(r); m.rotate(x, y, z); })},
                         {"after", part(base, [&](M &m) { m.setDistanceVector(seen(t, r)); })},
                         {"turned", part(base, [&](M &m) { m.setDistanceVector(r); m.rotate(newz(t), newy(t)); })}});
        return "true";
    });
    emit(j);
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        json in = json::parse(line);
        in["k"] == "one" ? one(in) : two(in);
    }
}
