// Matrix elements and energies with simple values for the calculation engine (backend-fake): the
// library's definitions are weak in that program, the ones here take their place. The same numbers
// are in specs/EngineOp.tla. Distances are in units of cbrt(inverse_electric_constant), and the
// elements of rank k carry that unit to the power k - 1, so that the constant drops out.
#include "Constants.hpp"
#include "MatrixElements.hpp"
#include "QuantumDefect.hpp"
#include <array>
#include <cmath>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <vector>
namespace {
int code(std::string const &species) { return species == "Cs" ? 1 : 0; }
int id(StateOneOld const &s) {
    return s.n + 7 * s.l + 3 * std::lround(2 * s.j) + 5 * std::lround(2 * s.m) + 40;
}
double table(std::string const &species, int kind, StateOneOld const &r, StateOneOld const &c) {
    int a = id(r), b = id(c);
    int x = (a * a + b * b) * 13 + a * b * 29 * (code(species) + 1) + kind * 1009;
    return x % 97 % 5 - 2;
}
bool vanishes(StateOneOld const &r, StateOneOld const &c, int k) {
    int dl = std::abs(r.l - c.l);
    double dj = std::abs(r.j - c.j), dm = std::abs(r.m - c.m);
    return dl > k || dl % 2 != k % 2 || r.l + c.l < k || dj > k || r.j + c.j < k || dm > k ||
        (k == 2 && r.j == 1.5 && c.j == 1.5 && r.m == -c.m && dm == 1);
}
int comp(StateOneOld const &r, StateOneOld const &c) { return std::lround(r.m - c.m); }
double sign(StateOneOld const &r, StateOneOld const &c) { // of a component below zero
    int q = comp(r, c);
    return q < 0 && q % 2 != 0 ? -1 : 1;
}
double unit(int k, int q) {
    static const double f[3][4] = {{1, std::sqrt(2.), 0, 0}, {3, std::sqrt(6.), std::sqrt(6.), 0}, {1, std::sqrt(3.), 0, 0}};
    // (components that the sixth order and above would need have no simple value)
    return k >= 1 && k <= 3 && f[k - 1][std::abs(q)] != 0 ? f[k - 1][std::abs(q)] : 0.7;
}
// What an object has been told to precalculate: as in the library, an element is put together from
// parts (radial, angular, reduced), is known when all its parts are, and is zero otherwise.
using Key = std::array<int, 8>;
std::map<void const *, std::set<Key>> known;
std::mutex guard;
int two(double x) { return std::lround(2 * x); }
Key radial(StateOneOld const &r, StateOneOld const &c, int k) {
    std::array<int, 3> a{{r.n, r.l, two(r.j)}}, b{{c.n, c.l, two(c.j)}};
    if (b < a) std::swap(a, b);
    return {{0, k, a[0], a[1], a[2], b[0], b[1], b[2]}};
}
Key angular(StateOneOld const &r, StateOneOld const &c, int k) { return {{1, k, two(r.j), two(c.j), two(r.m), two(c.m), 0, 0}}; }
Key spin(StateOneOld const &r, StateOneOld const &c, int k) { return {{2, k, r.l, two(r.j), c.l, two(c.j), 0, 0}}; }
Key orbit(StateOneOld const &r, StateOneOld const &c, int k) { return {{3, k, r.l, two(r.j), c.l, two(c.j), 0, 0}}; }
Key shape(StateOneOld const &r, StateOneOld const &c, int k) { return {{4, k, r.l, c.l, 0, 0, 0, 0}}; }
// the parts of an element; kr: power of the radius
std::vector<Key> parts(StateOneOld const &r, StateOneOld const &c, int k, int kr, bool magnetic) {
    return {radial(r, c, kr), angular(r, c, k), spin(r, c, k), magnetic ? orbit(r, c, k) : shape(r, c, k)};
}
bool knows(void const *who, StateOneOld const &r, StateOneOld const &c, int k, int kr, bool magnetic) {
    std::lock_guard<std::mutex> lock(guard);
    auto const &s = known[who];
    for (auto const &x : parts(r, c, k, kr, magnetic))
        if (s.count(x) == 0) return false;
    return true;
}
bool turns(StateOneOld const &r, StateOneOld const &c) {
    return r.l == c.l && std::abs(r.j - c.j) <= 1 && std::abs(r.m - c.m) <= 1 && r.j + c.j >= 1;
}
constexpr int Any = std::numeric_limits<int>::max();
template <class L>
void learn(void const *who, L const &basis, int k, int q, int kr, bool magnetic) {
    std::lock_guard<std::mutex> lock(guard);
    auto &s = known[who];
    for (auto const &c : basis)
        for (auto const &r : basis)
            if ((q == Any || r.m - c.m == q) && (magnetic ? turns(r, c) : !vanishes(r, c, k)))
                for (auto const &x : parts(r, c, k, kr, magnetic)) s.insert(x);
}
} // namespace
double MatrixElements::getMultipole(StateOneOld const &r, StateOneOld const &c, int k) {
    if (vanishes(r, c, k) || !knows(this, r, c, k, k, false)) return 0;
    return std::pow(std::cbrt(inverse_electric_constant), k - 1) * sign(r, c) * unit(k, comp(r, c)) * table(species, k, r, c);
}
double MatrixElements::getElectricMomentum(StateOneOld const &r, StateOneOld const &c) { return getMultipole(r, c, 1); }
double MatrixElements::getMagneticMomentum(StateOneOld const &r, StateOneOld const &c) {
    if (!turns(r, c) || !knows(this, r, c, 1, 0, true)) return 0;
    return -sign(r, c) * (comp(r, c) == 0 ? 1 : std::sqrt(2.)) * table(species, 10, r, c);
}
double MatrixElements::getDiamagnetism(StateOneOld const &r, StateOneOld const &c, int k) {
    if (vanishes(r, c, k) || !knows(this, r, c, k, 2, false)) return 0;
    int q = std::abs(comp(r, c));
    double u = k == 0 ? 1 : q == 0 ? 2 : q == 1 ? std::sqrt(2 / 3.) : 2 * std::sqrt(2 / 3.);
    return sign(r, c) * u * table(species, k == 0 ? 20 : 22, r, c);
}
using B = std::shared_ptr<const BasisnamesOne>;
using V = std::vector<StateOneOld>;
void MatrixElements::precalculateElectricMomentum(B const &b, int q) { learn(this, *b, 1, q, 1, false); }
void MatrixElements::precalculateMagneticMomentum(B const &b, int q) { learn(this, *b, 1, q, 0, true); }
void MatrixElements::precalculateDiamagnetism(B const &b, int k, int q) { learn(this, *b, k, q, 2, false); }
void MatrixElements::precalculateMultipole(B const &b, int k) { learn(this, *b, k, Any, k, false); }
void MatrixElements::precalculateRadial(B const &, int) {}
void MatrixElements::precalculateElectricMomentum(V const &b, int q) { learn(this, b, 1, q, 1, false); }
void MatrixElements::precalculateMagneticMomentum(V const &b, int q) { learn(this, b, 1, q, 0, true); }
void MatrixElements::precalculateDiamagnetism(V const &b, int k, int q) { learn(this, b, k, q, 2, false); }
void MatrixElements::precalculateMultipole(V const &b, int k) { learn(this, b, k, Any, k, false); }
void MatrixElements::precalculateRadial(V const &, int) {}
double energy_level(std::string const &species, int n, int l, double j, std::string const &) {
    return 2 * (16 * (n - 60) + (code(species) == 1 ? 7 : 5) * l + 2 * j);
}
