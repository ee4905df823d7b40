// Matrix elements and energies with simple values for the drivers of SystemOne and SystemTwo: the
// library's definitions are weak in these programs, the ones here take their place. Elements that
// vanish by angular momentum are zero whatever the table says.
#ifndef FAKEELEM_HPP
#define FAKEELEM_HPP
#include "Constants.hpp"
#include "MatrixElementCache.hpp"
#include "QuantumDefect.hpp"
#include <cmath>
#include <functional>
#include <string>
namespace fake {
// value of the pair for the operator, whatever the order of the two states
inline std::function<double(std::string const &, StateOne const &, StateOne const &)> table;
inline bool vanishes(StateOne const &r, StateOne const &c, int k) {
    int dl = std::abs(r.getL() - c.getL());
    double dj = std::abs(r.getJ() - c.getJ()), dm = std::abs(r.getM() - c.getM());
    return dl > k || dl % 2 != k % 2 || r.getL() + c.getL() < k || dj > k || r.getJ() + c.getJ() < k || dm > k ||
        (k == 2 && r.getJ() == 1.5 && c.getJ() == 1.5 && r.getM() == -c.getM() && dm == 1);
}
inline double sign(StateOne const &r, StateOne const &c) { // of a component below zero
    int q = std::lround(r.getM() - c.getM());
    return q < 0 && q % 2 != 0 ? -1 : 1;
}
inline double root(StateOne const &r, StateOne const &c) { return std::lround(r.getM() - c.getM()) == 0 ? 1 : std::sqrt(2); }
} // namespace fake
double MatrixElementCache::getElectricDipole(StateOne const &r, StateOne const &c) {
    return fake::vanishes(r, c, 1) ? 0 : fake::sign(r, c) * fake::root(r, c) * fake::table("E", r, c);
}
double MatrixElementCache::getMagneticDipole(StateOne const &r, StateOne const &c) {
    if (r.getL() != c.getL() || std::abs(r.getJ() - c.getJ()) > 1 || std::abs(r.getM() - c.getM()) > 1 || r.getJ() + c.getJ() < 1) return 0;
    return fake::sign(r, c) * fake::root(r, c) * fake::table("B", r, c);
}
double MatrixElementCache::getDiamagnetism(StateOne const &r, StateOne const &c, int k) {
    if (fake::vanishes(r, c, k)) return 0;
    int q = std::abs(std::lround(r.getM() - c.getM()));
    double unit = 8 * electron_rest_mass * (k == 0 ? 1 : q == 0 ? 2 : q == 1 ? std::sqrt(2 / 3.) : 2 * std::sqrt(2 / 3.));
    return fake::sign(r, c) * unit * fake::table(k == 0 ? "D0" : "D2", r, c);
}
void MatrixElementCache::precalculateElectricMomentum(const std::vector<StateOne> &, int) {}
void MatrixElementCache::precalculateMagneticMomentum(const std::vector<StateOne> &, int) {}
void MatrixElementCache::precalculateDiamagnetism(const std::vector<StateOne> &, int, int) {}
void MatrixElementCache::precalculateMultipole(const std::vector<StateOne> &, int) {}
void MatrixElementCache::precalculateRadial(const std::vector<StateOne> &, int) {}
double energy_level(std::string const &, int n, int l, double j, std::string const &) {
    return 10 * (n - 60) + 3 * l + 2 * j;
}
#endif
