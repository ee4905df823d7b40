// Common part of the drivers for rotations.
#ifndef ROTCOMMON_HPP
#define ROTCOMMON_HPP
#include "SystemOne.hpp"
#include "State.hpp"
#include "vlog.hpp"
#include <cmath>
#include <complex>
#include <functional>
#include <memory>
#include <nlohmann/json.hpp>
using namespace vlog;
using json = nlohmann::json;
typedef std::complex<double> Cx;

inline std::string number(Cx v, double unit) {
    auto one = [&](double x) {
        return std::isfinite(x) && std::abs(x * unit) < 1e9 ? std::to_string(std::llround(x * unit)) : std::string("999999999");
    };
    return "[" + one(v.real()) + "," + one(v.imag()) + "]";
}
template <class S>
inline std::string mat(Eigen::SparseMatrix<S> const &m, double unit) {
    std::string e = "[";
    for (int i = 0; i < m.rows(); ++i) {
        e += i ? ",[" : "[";
        for (int k = 0; k < m.cols(); ++k) e += (k ? "," : "") + number(m.coeff(i, k), unit);
        e += "]";
    }
    return "{\"r\":" + std::to_string(m.rows()) + ",\"c\":" + std::to_string(m.cols()) + ",\"e\":" + e + "]}";
}
inline bool attempt(J &j, char const *key, std::function<std::string()> f) {
    std::string r;
    bool ok = true;
    try {
        r = f();
    } catch (std::exception const &x) {
        ok = false;
        if (getenv("DEBUG")) std::cerr << x.what() << std::endl;
    }
    if (ok) j.raw(key, r);
    j.raw(std::string(key) + "_err", ok ? "false" : "true");
    return ok;
}
struct Pool {
    std::vector<StateOne> st;
    explicit Pool(json const &p) {
        for (auto const &s : p)
            st.emplace_back(s[4].get<std::string>(), s[0].get<int>(), s[1].get<int>(), s[2].get<int>() / 2.f, s[3].get<int>() / 2.f);
    }
    int id(StateOne const &s) const {
        for (size_t i = 0; i < st.size(); ++i)
            if (st[i] == s) return static_cast<int>(i) + 1;
        return 0;
    }
    std::string pairs(std::vector<StateTwo> const &v) const {
        return arrf(v, [&](StateTwo const &s) {
            return "[" + std::to_string(id(s.getFirstState())) + "," + std::to_string(id(s.getSecondState())) + "]";
        });
    }
};
// an angle given by the cosine and sine of its half
inline double angle(json const &a) {
    int c = a[0], s = a[1];
    if (s == 0) return c > 0 ? 0 : 2 * M_PI;
    if (c == 0) return s > 0 ? M_PI : -M_PI;
    if (c == s && c > 0) return M_PI / 2;
    if (c == -s && c > 0) return -M_PI / 2;
    return 2 * std::atan2(s, c);
}
inline double co(json const &a) { return (a[0].get<double>() * a[0].get<double>() - a[1].get<double>() * a[1].get<double>()) / (a[0].get<double>() * a[0].get<double>() + a[1].get<double>() * a[1].get<double>()); }
inline double si(json const &a) { return 2 * a[0].get<double>() * a[1].get<double>() / (a[0].get<double>() * a[0].get<double>() + a[1].get<double>() * a[1].get<double>()); }
inline std::array<double, 3> newz(json const &t) { return {{co(t[0]) * si(t[1]), si(t[0]) * si(t[1]), co(t[1])}}; }
inline std::array<double, 3> newy(json const &t) {
    return {{-co(t[0]) * co(t[1]) * si(t[2]) - si(t[0]) * co(t[2]), -si(t[0]) * co(t[1]) * si(t[2]) + co(t[0]) * co(t[2]), si(t[1]) * si(t[2])}};
}
inline std::array<double, 3> newx(json const &t) {
    auto z = newz(t), y = newy(t);
    return {{y[1] * z[2] - y[2] * z[1], y[2] * z[0] - y[0] * z[2], y[0] * z[1] - y[1] * z[0]}};
}
#endif
