// Conformance driver for states (property C08).
#include "Constants.hpp"
#include "State.hpp"
#include "StateOld.hpp"
#include "vlog.hpp"
#include <cereal/archives/binary.hpp>
#include <cmath>
#include <set>
#include <unordered_set>
using namespace vlog;

struct D {
    char k;
    std::string sp;
    int n, l, j2, m2;
};
static std::string codes(std::string const &s) {
    std::vector<int> v;
    for (unsigned char c : s) v.push_back(c);
    return arr(v);
}
static StateOne mk(D const &d) {
    if (d.k == 'A') return StateOne(d.sp);
    return StateOne(d.sp, d.n, d.l, d.j2 / 2.f, d.m2 / 2.f);
}
static StateOneOld mko(D const &d) {
    if (d.k == 'A') return StateOneOld(d.sp, 0, 0, 0, 0);
    return StateOneOld(d.sp, d.n, d.l, d.j2 / 2.f, d.m2 / 2.f);
}
static long long h2(float x) { return std::llround(2 * x); }
template <class F>
static bool refuses(F f) {
    try {
        f();
        return false;
    } catch (std::runtime_error const &) {
        return true;
    }
}
template <class S>
static bool roundtrip(S const &s) {
    std::stringstream ss;
    S t = s;
    {
        cereal::BinaryOutputArchive a(ss);
        a << s;
    }
    S u = t;
    {
        cereal::BinaryInputArchive a(ss);
        a >> u;
    }
    return u == s && u.getHash() == s.getHash() && u.str() == s.str();
}
static void make(D const &d) {
    StateOne s = mk(d);
    std::vector<std::string> ref;
    auto t = [&](char const *n, auto f) {
        if (refuses(f)) ref.push_back(n);
    };
    t("n", [&] { s.getN(); });
    t("l", [&] { s.getL(); });
    t("j", [&] { s.getJ(); });
    t("m", [&] { s.getM(); });
    t("s", [&] { s.getS(); });
    t("species", [&] { s.getSpecies(); });
    t("element", [&] { s.getElement(); });
    t("label", [&] { s.getLabel(); });
    t("reflected", [&] { s.getReflected(); });
    J j("Make");
    j.str("k", std::string(1, d.k)).raw("sp", codes(d.sp)).str("spstr", d.sp);
    j.raw("q", arr(std::vector<int>{d.n, d.l, d.j2, d.m2}));
    j.b("artificial", s.isArtificial()).b("generalized", s.isGeneralized()).raw("refused", arrs(ref));
    j.str("text", s.str());
    if (d.k == 'A')
        j.raw("osp", codes(s.isArtificial() ? s.getLabel() : ""));
    else {
        auto r = s.getReflected();
        j.raw("osp", codes(s.getSpecies())).raw("oel", codes(s.getElement())).num("os2", h2(s.getS()));
        j.raw("oq", arr(std::vector<long long>{s.getN(), s.getL(), h2(s.getJ()), h2(s.getM())}));
        j.raw("rsp", codes(r.getSpecies()));
        j.raw("rq", arr(std::vector<long long>{r.getN(), r.getL(), h2(r.getJ()), h2(r.getM())}));
    }
    emit(j);
    if (d.k == 'R')
        emit(J("Zero").b("refused", refuses([&] { StateOne(d.sp, 0, d.l, d.j2 / 2.f, d.m2 / 2.f); })));
    emit(J("Stored").b("same", roundtrip(s)));
}
template <class S>
static J cmp(char const *e, S const &a, S const &b) {
    J j(e);
    j.b("eq", a == b).b("ne", a != b).b("lt", a < b).b("match", a ^ b);
    j.b("heq", std::hash<S>{}(a) == std::hash<S>{}(b));
    return j;
}
static void pair1(std::vector<D> const &t, size_t a, size_t b) {
    auto x = mk(t[a]), y = mk(t[b]);
    emit(cmp("Cmp", x, y).b("le", x <= y).num("a", a + 1).num("b", b + 1));
    auto p = mko(t[a]), q = mko(t[b]);
    emit(cmp("OldCmp", p, q).num("a", a + 1).num("b", b + 1));
}
static bool sameTwo(StateTwo const &s, StateOne const &a, StateOne const &b) {
    bool ok = s.getFirstState() == a && s.getSecondState() == b && roundtrip(s) &&
        s.str() == a.str() + b.str();
    StateOne const *p[2] = {&a, &b};
    for (int i = 0; i < 2; ++i) {
        ok &= s.isArtificial(i) == p[i]->isArtificial() && s.isArtificial()[i] == p[i]->isArtificial();
        ok &= s.isGeneralized(i) == p[i]->isGeneralized() &&
            s.isGeneralized()[i] == p[i]->isGeneralized();
        if (p[i]->isArtificial())
            ok &= s.getLabel(i) == p[i]->getLabel();
        else
            ok &= s.getN(i) == p[i]->getN() && s.getL(i) == p[i]->getL() && s.getJ(i) == p[i]->getJ() &&
                s.getM(i) == p[i]->getM() && s.getS(i) == p[i]->getS() &&
                s.getSpecies(i) == p[i]->getSpecies() && s.getElement(i) == p[i]->getElement();
    }
    bool aa = a.isArtificial(), ab = b.isArtificial();
    if (!aa && !ab) {
        for (int i = 0; i < 2; ++i)
            ok &= s.getN()[i] == p[i]->getN() && s.getL()[i] == p[i]->getL() &&
                s.getJ()[i] == p[i]->getJ() && s.getM()[i] == p[i]->getM() &&
                s.getS()[i] == p[i]->getS() && s.getSpecies()[i] == p[i]->getSpecies() &&
                s.getElement()[i] == p[i]->getElement();
        StateTwo u(s.getSpecies(), s.getN(), s.getL(), s.getJ(), s.getM());
        ok &= u == s && u.getHash() == s.getHash();
        auto r = s.getReflected();
        ok &= r.getFirstState() == a.getReflected() && r.getSecondState() == b.getReflected();
    } else {
        ok &= refuses([&] { s.getN(); }) && refuses([&] { s.getSpecies(); });
    }
    if (aa && ab) {
        StateTwo u({{a.getLabel(), b.getLabel()}});
        ok &= u == s && u.getHash() == s.getHash() && s.getLabel()[0] == a.getLabel() &&
            s.getLabel()[1] == b.getLabel();
    } else
        ok &= refuses([&] { s.getLabel(); });
    return ok;
}
static void pair2(std::vector<D> const &t, size_t a, size_t b, size_t c, size_t d) {
    auto sa = mk(t[a]), sb = mk(t[b]), sc = mk(t[c]), sd = mk(t[d]);
    StateTwo x(sa, sb), y(sc, sd);
    std::string ia = arr(std::vector<size_t>{a + 1, b + 1}), ib = arr(std::vector<size_t>{c + 1, d + 1});
    emit(cmp("Cmp2", x, y).b("le", x <= y).b("same", sameTwo(x, sa, sb)).raw("a", ia).raw("b", ib));
    auto oa = mko(t[a]), ob = mko(t[b]), oc = mko(t[c]), od = mko(t[d]);
    StateTwoOld p(oa, ob), q(oc, od);
    bool same = p.first() == oa && p.second() == ob && p.getFirstState() == oa &&
        p.getSecondState() == ob && p.first().species == oa.species && p.second().species == ob.species &&
        p.first().element == oa.element && p.second().s == ob.s;
    StateTwoOld w = p;
    w.setFirstState(oc);
    w.setSecondState(od);
    same &= w == q && w.species == q.species;
    auto o = p.order();
    emit(cmp("OldCmp2", p, q)
             .b("same", same)
             .raw("a", ia)
             .raw("b", ib)
             .raw("ordered",
                  arr(std::vector<long long>{o.n[0], o.l[0], h2(o.j[0]), h2(o.m[0]), o.n[1], o.l[1],
                                             h2(o.j[1]), h2(o.m[1])})));
}
static void contain(std::mt19937 &g, std::vector<D> const &t) {
    std::vector<size_t> ids;
    std::unordered_set<StateOne> h;
    std::set<StateOne> o;
    for (int i = 0; i < 30; ++i) {
        size_t k = g() % t.size();
        ids.push_back(k + 1);
        h.insert(mk(t[k]));
        o.insert(mk(t[k]));
    }
    bool found = true;
    for (size_t i : ids) found &= h.count(mk(t[i - 1])) == 1 && o.count(mk(t[i - 1])) == 1;
    emit(J("Contain").raw("ids", arr(ids)).num("hashed", h.size()).num("sorted", o.size()).b("found", found));
}

int main(int argc, char **argv) {
    std::mt19937 g(std::stoul(argv[1]));
    int rounds = std::stoi(argv[2]);
    char const *species[] = {"Rb", "Cs", "Sr1", "Sr3", "Rb2", "R", "K", "Sr", "Rb1", "b"};
    for (int r = 0; r < rounds; ++r) {
        emit(J("New"));
        std::vector<D> t;
        int ns = 1 + g() % 4;
        int off = g() % 10;
        int nt = 5 + g() % 9;
        int wild = g() % 2;
        int dim = 1 + g() % 3;
        for (int i = 0; i < nt; ++i) {
            D d;
            d.sp = species[(off + g() % ns) % 10];
            if (g() % 7 == 0) {
                d.k = 'A';
                d.n = d.l = d.j2 = d.m2 = 0;
                if (g() % 3 == 0) d.sp = std::string("label ") + char('a' + g() % 3);
            } else {
                d.k = 'R';
                d.n = 1 + g() % dim + (g() % 4 == 0 ? 90 : 0);
                d.l = g() % dim + (g() % 5 == 0 ? 5 : 0);
                d.j2 = g() % (2 * dim);
                d.m2 = static_cast<int>(g() % (2 * dim + 1)) - dim;
                // magnetic number of the same kind as j, so that the text is exact
                if ((d.j2 + d.m2) % 2) d.m2 += 1;
                if (g() % 5 == 0) d.m2 += 40, d.j2 += 40;
                if (g() % 9 == 0) d.m2 -= 80;
                if (wild) {
                    if (g() % 4 == 0) d.n = ARB;
                    if (g() % 4 == 0) d.l = ARB;
                    if (g() % 4 == 0) d.j2 = 2 * ARB;
                    if (g() % 4 == 0) d.m2 = 2 * ARB;
                }
            }
            t.push_back(d);
            // a copy differing in at most one field
            if (i + 1 < nt && g() % 2) {
                D e = d;
                switch (g() % 8) {
                case 6: case 7: // ... or the same with something left open
                    if (e.k == 'R') {
                        if (g() % 2) e.n = ARB;
                        if (g() % 2) e.l = ARB;
                        if (g() % 2) e.j2 = 2 * ARB;
                        if (g() % 2) e.m2 = 2 * ARB;
                    }
                    break;
                case 0: e.sp += "2"; break;
                case 1: if (e.k == 'R') e.n = e.n == ARB ? 5 : e.n + 1; break;
                case 2: if (e.k == 'R') e.l = e.l == ARB ? 1 : e.l + 1; break;
                case 3: if (e.k == 'R') e.j2 = e.j2 == 2 * ARB ? 2 : e.j2 + 2; break;
                case 4: if (e.k == 'R') e.m2 = e.m2 == 2 * ARB ? 2 : e.m2 - 2; break;
                }
                t.push_back(e);
                ++i;
            }
        }
        for (auto const &d : t) make(d);
        for (size_t a = 0; a < t.size(); ++a)
            for (size_t b = 0; b < t.size(); ++b) pair1(t, a, b);
        for (int i = 0; i < 60; ++i) {
            size_t a = g() % t.size(), b = g() % t.size(), c = g() % t.size(), d = g() % t.size();
            if (g() % 3 == 0) b = a;
            if (g() % 2) c = a;
            if (g() % 2) d = b;
            // a neighbour in the table is often the same state with something left open
            if (g() % 3 == 0) c = std::min(a + 1, t.size() - 1);
            if (g() % 3 == 0) d = std::min(b + 1, t.size() - 1);
            pair2(t, a, b, c, d);
        }
        contain(g, t);
    }
    return 0;
}
