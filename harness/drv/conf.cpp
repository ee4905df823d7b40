// Conformance driver for the configuration store (property C05).
#include "ConfParser.hpp"
#include "vlog.hpp"
#include <cmath>
#include <cstring>
#include <memory>
#include <unistd.h>
using namespace vlog;

static std::string dir;
struct Typed {
    std::string i = "any", u = "any", d = "any", f = "any";
};
static std::string fmt9(float x) {
    char b[64];
    snprintf(b, sizeof b, "%.9g", x);
    return b;
}
// strings whose reading in each type is known
struct Known {
    char const *text;
    Typed t;
};
static std::vector<Known> known{
    {"", {"bad", "bad", "bad", "bad"}},
    {"Hello World!", {"bad", "bad", "bad", "bad"}},
    {"42", {"42", "42", "42", "42"}},
    {"-17", {"-17", "any", "-17", "-17"}},
    {"0.5", {"any", "any", "0.5", "0.5"}},
    {"1e3", {"any", "any", "1000", "1000"}},
    {"99999999999999999999", {"bad", "any", "1e+20", "1.00000002e+20"}},
    {"a\"b\\c/d\n\te", {"bad", "bad", "bad", "bad"}},
    {"\xc3\xa4\xe2\x82\xac \xf0\x9d\x84\x9e", {"bad", "bad", "bad", "bad"}},
    {"\x01\x1f", {"bad", "bad", "bad", "bad"}},
    {"  lead and trail  ", {"bad", "bad", "bad", "bad"}},
    {"true", {"bad", "bad", "bad", "bad"}},
    {"{\"x\": 1}", {"bad", "bad", "bad", "bad"}}};
static std::vector<std::string> keys{
    "n1", "l1", "deltaESingle", "a", "a.b", "a.b.c", ".", "", "key with space", "q\"uote", "sl/ash",
    "\xc3\xbc" "ber", "a.", ".a", "b\\n", "1", "a b.c d"};

static std::unique_ptr<Configuration> c[4];
static std::string val(std::string const &text, Typed const &t) {
    return J().str("text", text).str("i", t.i).str("u", t.u).str("d", t.d).str("f", t.f).done();
}
static void logput(int i, std::string const &k, Typed const &t) {
    Configuration const &k2 = *c[i];
    emit(J("Put").num("c", i).str("k", k).str("text", k2[k].str()).str("i", t.i).str("u", t.u)
             .str("d", t.d).str("f", t.f));
}
static void fresh() {
    for (auto &x : c) x.reset(new Configuration);
    emit(J("Reset"));
}
static void put_text(int i, std::string const &k, Known const &v, int how) {
    std::string s = v.text;
    if (how == 0) (*c[i])[k] << s;
    else if (how == 1) (*c[i])[k] << v.text;
    else {
        Configuration tmp;
        tmp["x"] << s;
        (*c[i])[k] << tmp["x"];
    }
    // what was given is what must be stored
    emit(J("Put").num("c", i).str("k", k).str("text", s).str("i", v.t.i).str("u", v.t.u)
             .str("d", v.t.d).str("f", v.t.f));
}
static void put_number(int i, std::string const &k, std::mt19937 &g) {
    Typed t;
    auto bits = [&] { return (static_cast<uint64_t>(g()) << 32) | g(); };
    switch (g() % 6) {
    case 0: {
        int v = g() % 3 ? static_cast<int>(g()) : static_cast<int>(g() % 100) - 50;
        (*c[i])[k] << v;
        t.i = std::to_string(v);
        t.d = dbl(v);
        if (v >= 0) t.u = t.i;
        break;
    }
    case 1: {
        size_t v = g() % 2 ? bits() : g() % 1000;
        (*c[i])[k] << v;
        t.u = std::to_string(v);
        t.d = dbl(static_cast<double>(v));
        break;
    }
    case 2: {
        float v;
        do {
            uint32_t b = g();
            memcpy(&v, &b, 4);
        } while (!std::isnormal(v));
        if (g() % 2) v = static_cast<float>(g() % 1000) / 7;
        (*c[i])[k] << v;
        t.f = fmt9(v);
        break;
    }
    default: {
        double v;
        do {
            uint64_t b = bits();
            memcpy(&v, &b, 8);
        } while (!std::isnormal(v));
        int x = g() % 4;
        if (x == 0) v = std::round(v = (g() % 2000000) / 7.0 * 1e4) / 1e4;
        if (x == 1) v = (static_cast<int>(g() % 20001) - 10000) / 100.0;
        if (x == 2) v = 5.0 + std::ldexp(1.0, -static_cast<int>(g() % 50));
        (*c[i])[k] << v;
        t.d = dbl(v);
    }
    }
    logput(i, k, t);
}
template <class F>
static std::string guard(F f) {
    try {
        return f();
    } catch (std::invalid_argument const &) {
        return "bad";
    } catch (std::out_of_range const &) {
        return "bad";
    } catch (std::exception const &e) {
        return std::string("other: ") + e.what();
    }
}
template <class C>
static std::string rd(C &k, std::string const &key, char type) {
    return guard([&]() -> std::string {
        auto v = k[key];
        auto const &w = v;
        if (type == 's') {
            std::string s;
            w >> s;
            return s == v.str() ? s : "inconsistent";
        }
        if (type == 'i') {
            int x;
            w >> x;
            int y;
            v >> y;
            return x == y ? std::to_string(x) : "inconsistent";
        }
        if (type == 'u') {
            size_t x, y;
            w >> x;
            v >> y;
            return x == y ? std::to_string(x) : "inconsistent";
        }
        if (type == 'f') {
            float x, y;
            w >> x;
            v >> y;
            return x == y ? fmt9(x) : "inconsistent";
        }
        double x, y;
        w >> x;
        v >> y;
        return x == y ? dbl(x) : "inconsistent";
    });
}
static void read(int i, std::string const &k, char type) {
    std::string r;
    Configuration const &cc = *c[i];
    if (!cc.count(k)) {
        try {
            cc[k];
            r = "present";
        } catch (std::out_of_range const &) {
            r = "absent";
        }
        if ((cc.find(k) != cc.end()) || (c[i]->find(k) != c[i]->end())) r = "found";
    } else {
        r = rd(cc, k, type);
        if (rd(*c[i], k, type) != r) r = "inconsistent";
        if (cc.find(k) == cc.end() || cc.find(k)->first != k) r = "not found";
    }
    emit(J("Read").num("c", i).str("k", k).str("type", std::string(1, type)).str("r", r));
}
static void list(int i) {
    std::vector<std::string> ks, ts;
    Configuration const &cc = *c[i];
    for (auto const &p : cc) {
        ks.push_back(p.first);
        ts.push_back(p.second.str());
    }
    emit(J("List").num("c", i).num("size", cc.size()).raw("keys", arrs(ks)).raw("texts", arrs(ts)));
}
static void equal(int i, int j) { emit(J("Equal").num("c", i).num("d", j).b("r", *c[i] == *c[j])); }
static void count(int i, std::string const &k) {
    emit(J("Count").num("c", i).str("k", k).num("r", c[i]->count(k)));
}
static void touch(int i, std::string const &k) {
    (*c[i])[k];
    emit(J("Touch").num("c", i).str("k", k));
}
static void add(int i, int j) {
    *c[i] += *c[j];
    emit(J("Add").num("c", i).num("d", j));
}
static void copy(int i, int j) {
    Configuration x(*c[j]);
    *c[i] = x;
    emit(J("Copy").num("c", i).num("d", j));
}
// two configurations that differ at most in one thing
static void twins(int i, int j, std::mt19937 &g) {
    copy(j, i);
    equal(i, j);
    Configuration const &cc = *c[i];
    std::vector<std::string> ks;
    for (auto const &p : cc) ks.push_back(p.first);
    if (ks.empty() || g() % 5 == 0) {
        (*c[j])["another"];
        emit(J("Touch").num("c", j).str("k", "another"));
    } else {
        std::string k = ks[g() % ks.size()], t = cc[k].str();
        switch (g() % 6) { // the same number, or the same word, written differently
        case 0: t += t.find('.') == std::string::npos ? ".0" : "0"; break;
        case 1: t += " "; break;
        case 2: t = "0" + t; break;
        case 3: t = t.empty() ? "0" : t.substr(0, t.size() - 1); break;
        case 4: for (auto &x : t) x = static_cast<char>(isupper(x) ? tolower(x) : toupper(x)); break;
        case 5: t += "1"; break;
        }
        for (size_t x = 0; x < t.size(); ++x) // still valid text
            if (static_cast<unsigned char>(t[x]) >= 128) t = "plain";
        Known v{t.c_str(), {}};
        put_text(j, k, v, g() % 3);
    }
    equal(i, j);
    equal(j, i);
}
static void save(int i, std::string const &p) {
    std::string o = "ok";
    try {
        c[i]->save_to_json(dir + p);
    } catch (std::exception const &e) {
        o = e.what();
    }
    emit(J("Save").num("c", i).str("p", p).str("o", o));
}
static void load(int i, std::string const &p) {
    std::string o = "ok";
    try {
        c[i]->load_from_json(dir + p);
    } catch (std::exception const &) {
        o = "refused";
    }
    emit(J("Load").num("c", i).str("p", p).str("o", o));
}
static void spoil(std::string const &p, std::mt19937 &g) {
    char const *bad[] = {"", "{", "{\"a\": }", "{\"a\": \"1\", \"b\"", "nothing", "{\"a\": \"1\"} x"};
    std::ofstream(dir + p) << bad[g() % 6];
    if (g() % 4 == 0) unlink((dir + p).c_str());
    emit(J("Spoil").str("p", p));
}
static void external(std::string const &p, std::mt19937 &g) { // written by another program
    std::ofstream f(dir + p);
    f << "{\"n1\": 42, \"a.b\":\"42\",\n\t\"\\u00fcber\": -0.5, \"x\": \"\\u20ac\\/\", \"b\": true}";
    Typed t42{"42", "42", "42", "42"}, tm{"any", "any", "-0.5", "-0.5"}, bad{"bad", "bad", "bad", "bad"};
    emit(J("WriteFile").str("p", p)
             .raw("keys", arrs({"n1", "a.b", "\xc3\xbc" "ber", "x", "b"}))
             .raw("vals", "[" + val("42", t42) + "," + val("42", t42) + "," + val("-0.5", tm) + "," +
                      val("\xe2\x82\xac/", bad) + "," + val("true", bad) + "]"));
}

int main(int argc, char **argv) {
    std::string mode = argv[1];
    std::mt19937 g(std::stoul(argv[2]));
    dir = std::string(argv[3]) + "/";
    if (mode == "script") {
        std::string line;
        while (std::getline(std::cin, line)) {
            std::istringstream is(line);
            std::string o, k, t;
            int i = 0, j = 0;
            is >> o;
            if (o == "new") {
                fresh();
                unlink((dir + "f").c_str());
            } else if (o == "end") {
                for (i = 1; i <= 2; ++i) {
                    list(i);
                    for (auto x : {"a", "a.b"}) read(i, x, 's'), count(i, x);
                }
                equal(1, 2);
            } else {
                is >> i;
                if (o == "put") is >> k >> t, put_text(i, k, Known{strdup(t.c_str()), {}}, g() % 3);
                if (o == "touch") is >> k, touch(i, k);
                if (o == "add") is >> j, add(i, j);
                if (o == "copy") is >> j, copy(i, j);
                if (o == "save") is >> k, save(i, k);
                if (o == "load") is >> k, load(i, k);
            }
        }
        return 0;
    }
    int n = std::stoi(argv[4]), len = std::stoi(argv[5]);
    std::vector<std::string> files{"f1.json", "f2.json", "f3.json"};
    for (int r = 0; r < n; ++r) {
        fresh();
        for (auto const &f : files) unlink((dir + f).c_str());
        for (int s = 0; s < len; ++s) {
            int i = g() % 4, j = g() % 4;
            std::string k = keys[g() % keys.size()];
            std::string f = files[g() % 3];
            switch (g() % 22) {
            case 20: case 21: twins(i, (i + 1 + g() % 3) % 4, g); break;
            case 0: case 1: case 2: put_text(i, k, known[g() % known.size()], g() % 3); break;
            case 3: case 4: case 5: put_number(i, k, g); break;
            case 6: touch(i, k); break;
            case 7: add(i, j); break;
            case 8: copy(i, j); break;
            case 9: case 10: save(i, f); break;
            case 11: case 12: load(i, f); break;
            case 13: if (g() % 4 == 0) spoil(f, g); else if (g() % 3 == 0) external(f, g); break;
            case 14: equal(i, j); break;
            case 15: count(i, k); break;
            case 16: list(i); break;
            default: read(i, k, "sidfu"[g() % 5]);
            }
        }
        for (int i = 0; i < 4; ++i) {
            list(i);
            for (auto const &k : keys)
                for (char t : {'s', 'i', 'u', 'd', 'f'})
                    if (c[i]->count(k) || g() % 8 == 0) read(i, k, t);
            save(i, "f1.json");
            load((i + 1) % 4, "f1.json"); // merges
            list((i + 1) % 4);
            equal(i, (i + 1) % 4);
        }
    }
}
