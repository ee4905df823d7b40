// Event log shared by all drivers: one JSON object per line on stdout, flushed at once so that a
// crash of the code under test loses nothing.
#ifndef VLOG_HPP
#define VLOG_HPP
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <random>
#include <sstream>
#include <string>
#include <vector>
namespace vlog {
inline std::mutex &mtx() {
    static std::mutex m;
    return m;
}
inline std::string esc(std::string const &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += c;
    }
    return r + "\"";
}
// Tiny JSON builder
struct J {
    std::string s = "{";
    bool first = true;
    J &key(std::string const &k) {
        if (!first) s += ",";
        first = false;
        s += esc(k) + ":";
        return *this;
    }
    J() {}
    explicit J(std::string const &ev) { str("event", ev); }
    J &str(std::string const &k, std::string const &v) {
        key(k);
        s += esc(v);
        return *this;
    }
    J &num(std::string const &k, long long v) {
        key(k);
        s += std::to_string(v);
        return *this;
    }
    J &b(std::string const &k, bool v) {
        key(k);
        s += v ? "true" : "false";
        return *this;
    }
    J &raw(std::string const &k, std::string const &v) {
        key(k);
        s += v;
        return *this;
    }
    std::string done() const { return s + "}"; }
};
template <class V>
std::string arr(V const &v) {
    std::string s = "[";
    bool f = true;
    for (auto const &x : v) {
        if (!f) s += ",";
        f = false;
        s += std::to_string(x);
    }
    return s + "]";
}
template <class V, class F>
std::string arrf(V const &v, F f) {
    std::string s = "[";
    bool first = true;
    for (auto const &x : v) {
        if (!first) s += ",";
        first = false;
        s += f(x);
    }
    return s + "]";
}
inline std::string arrs(std::vector<std::string> const &v) {
    return arrf(v, [](std::string const &x) { return esc(x); });
}
inline void emit(std::string const &line) {
    std::lock_guard<std::mutex> g(mtx());
    fputs(line.c_str(), stdout);
    fputc('\n', stdout);
    fflush(stdout);
}
inline void emit(J const &j) { emit(j.done()); }
inline std::string dbl(double d) { // exact, opaque
    char b[64];
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}
} // namespace vlog
#endif
