// S01/S02: state equality, order, hash, wildcard matching, reflection on the real classes
#include "common.hpp"
#include "Constants.hpp"
#include "State.hpp"
#include "StateOld.hpp"
#include "Symmetry.hpp"
#include <unordered_set>
using namespace vf;
struct Q { std::string sp; int n, l; float j, m; };
static std::string qs(const Q &q) { return str("(", q.sp, ",", q.n, ",", q.l, ",", q.j, ",", q.m, ")"); }
static bool qeq(const Q &a, const Q &b, bool sp) { return (!sp || a.sp == b.sp) && a.n == b.n && a.l == b.l && a.j == b.j && a.m == b.m; }
static int qcmp(const Q &a, const Q &b, bool sp) {
    if (sp && a.sp != b.sp) return a.sp < b.sp ? -1 : 1;
    if (a.n != b.n) return a.n < b.n ? -1 : 1;
    if (a.l != b.l) return a.l < b.l ? -1 : 1;
    if (a.j != b.j) return a.j < b.j ? -1 : 1;
    if (a.m != b.m) return a.m < b.m ? -1 : 1;
    return 0;
}
static bool wild(const Q &a, const Q &b, bool sp) {
    return (!sp || a.sp == b.sp) && (b.n == ARB || a.n == b.n) && (b.l == ARB || a.l == b.l) &&
        (b.j == ARB || a.j == b.j) && (b.m == ARB || a.m == b.m);
}
static Q rq(Rng &r, bool gen) {
    Q q;
    q.sp = r.pick<std::string>({"Rb", "Cs", "Sr1", "Sr3", "Li"});
    q.n = r.b() ? r.i(1, 4) : r.i(1, 90);
    q.l = r.b() ? r.i(0, 2) : r.i(0, 40);
    q.j = r.b() ? q.l + 0.5f : r.i(0, 8) / 2.f;
    q.m = r.b() ? r.i(-3, 3) + 0.5f : r.i(-8, 8) / 2.f;
    if (gen) {
        if (r.i(0, 3) == 0) q.n = ARB;
        if (r.i(0, 3) == 0) q.l = ARB;
        if (r.i(0, 3) == 0) q.j = ARB;
        if (r.i(0, 3) == 0) q.m = ARB;
    }
    return q;
}
static Q mutate(Rng &r, Q q) {
    switch (r.i(0, 6)) {
    case 0: q.sp = r.b() ? "Rb" : "Rb2"; break;
    case 1: q.n += r.i(-1, 1); break;
    case 2: q.l += 1; break;
    case 3: q.j += r.b() ? 1 : .5; break;
    case 4: q.m = -q.m; break;
    }
    if (q.n == 0) q.n = 1;
    return q;
}
#ifndef PROP_S02
static void pair_one(const Q &a, const Q &b) {
    StateOne x(a.sp, a.n, a.l, a.j, a.m), y(b.sp, b.n, b.l, b.j, b.m);
    std::string w = qs(a) + " vs " + qs(b);
    int c = qcmp(a, b, true);
    bool e = (x == y), ok = e == (c == 0) && (x != y) == !e && (x < y) == (c < 0) && (x <= y) == (c <= 0);
    check(ok, "StateOne comparisons", "stateone-compare", w);
    check(!e || (x.getHash() == y.getHash() && std::hash<StateOne>{}(x) == std::hash<StateOne>{}(y)), "StateOne hash", "stateone-hash", w);
    std::unordered_set<StateOne> s{x, y};
    check((s.size() == 1) == (c == 0), "StateOne as container key", "stateone-set", w);
    StateOneOld o(a.sp, a.n, a.l, a.j, a.m), p(b.sp, b.n, b.l, b.j, b.m);
    int d = qcmp(a, b, false);
    check((o == p) == (d == 0) && (o != p) == (d != 0) && (o < p) == (d < 0), "StateOneOld comparisons", "stateoneold-compare", w);
    check(d != 0 || std::hash<StateOneOld>{}(o) == std::hash<StateOneOld>{}(p), "StateOneOld hash", "stateoneold-hash", w);
}
static void pair_two(const Q &a, const Q &b, const Q &c, const Q &d) {
    std::string w = qs(a) + qs(b) + " vs " + qs(c) + qs(d);
    StateTwo x(StateOne(a.sp, a.n, a.l, a.j, a.m), StateOne(b.sp, b.n, b.l, b.j, b.m));
    StateTwo y({{c.sp, d.sp}}, {{c.n, d.n}}, {{c.l, d.l}}, {{c.j, d.j}}, {{c.m, d.m}});
    int k = qcmp(a, c, true);
    if (k == 0) k = qcmp(b, d, true);
    bool e = x == y;
    check(e == (k == 0) && (x != y) == !e && (x < y) == (k < 0) && (x <= y) == (k <= 0), "StateTwo comparisons", "statetwo-compare", w);
    check(!e || (x.getHash() == y.getHash() && std::hash<StateTwo>{}(x) == std::hash<StateTwo>{}(y)), "StateTwo hash", "statetwo-hash", w);
    StateTwoOld o({{a.sp, b.sp}}, {{a.n, b.n}}, {{a.l, b.l}}, {{a.j, b.j}}, {{a.m, b.m}});
    StateTwoOld p({{c.sp, d.sp}}, {{c.n, d.n}}, {{c.l, d.l}}, {{c.j, d.j}}, {{c.m, d.m}});
    int h = qcmp(a, c, false);
    if (h == 0) h = qcmp(b, d, false);
    check((o == p) == (h == 0) && (o != p) == (h != 0) && (o < p) == (h < 0), "StateTwoOld comparisons", "statetwoold-compare", w);
    check(h != 0 || std::hash<StateTwoOld>{}(o) == std::hash<StateTwoOld>{}(p), "StateTwoOld hash", "statetwoold-hash", w);
    StateTwoOld oo = o.order();
    bool sw = qcmp(a, b, false) > 0;
    check(oo == (sw ? StateTwoOld(o.second(), o.first()) : o), "StateTwoOld::order", "statetwoold-order", w);
}
static void sym(Rng &r) {
    std::vector<parity_t> p{NA, EVEN, ODD};
    std::vector<int> rot{INT_MAX, -1, 0, 1};
    auto g = [&] { return Symmetry{r.pick(p), r.pick(p), r.pick(p), r.pick(rot)}; };
    Symmetry a = g(), b = g(), c = g();
    auto eq = [](const Symmetry &x, const Symmetry &y) { return x.inversion == y.inversion && x.reflection == y.reflection && x.permutation == y.permutation && x.rotation == y.rotation; };
    auto s = [](const Symmetry &x) { return str(x.inversion, "/", x.reflection, "/", x.permutation, "/", x.rotation); };
    check((a < b) + (b < a) + eq(a, b) == 1, "Symmetry order", "symmetry-trichotomy", s(a) + " " + s(b));
    check(!((a < b) && (b < c)) || a < c, "Symmetry transitivity", "symmetry-transitive", s(a) + " " + s(b) + " " + s(c));
}
void vf_search(uint64_t seed, int n) {
    Rng r(seed);
    for (int i = 0; i < n; ++i)
        guard("s01", "case", [&] {
            Q a = rq(r, r.i(0, 4) == 0), b = r.b() ? mutate(r, a) : rq(r, false), c = r.b() ? mutate(r, a) : rq(r, false), d = r.b() ? mutate(r, b) : b;
            pair_one(a, b);
            pair_one(a, a);
            pair_two(a, b, c, d);
            pair_two(a, b, a, d);
            pair_two(a, b, a, b);
            pair_two(a, b, b, a);
            StateOne x("l" + std::to_string(r.i(0, 3))), y("l" + std::to_string(r.i(0, 3)));
            check((x == y) == (x.getLabel() == y.getLabel()) && (!(x == y) || x.getHash() == y.getHash()) && !(x < y && y < x) && (x < y || y < x || x == y), "artificial states", "artificial", x.getLabel() + y.getLabel());
            sym(r);
        });
}
void vf_replay(const std::string &w, const KV &kv) {
    auto ss = strings(kv, "_sp");
    auto q = [&](const std::string &p) { return Q{ss[p + "_sp"], (int)num(kv, p + "_n", 1), (int)num(kv, p + "_l"), (float)num(kv, p + "_j"), (float)num(kv, p + "_m")}; };
    guard("s01", "replay", [&] {
        if (w == "one") { pair_one(q("a"), q("b")); pair_one(q("b"), q("a")); }
        if (w == "two") pair_two(q("aa"), q("ab"), q("ba"), q("bb"));
    });
}
#else
void vf_search(uint64_t seed, int n) {
    Rng r(seed);
    for (int i = 0; i < n; ++i)
        guard("s02", "case", [&] {
            Q a = rq(r, r.i(0, 4) == 0), b = r.b() ? mutate(r, a) : rq(r, true);
            for (auto *p : {&b.n, &b.l}) if (r.i(0, 3) == 0) *p = ARB;
            for (auto *p : {&b.j, &b.m}) if (r.i(0, 3) == 0) *p = ARB;
            Q c = rq(r, false), d = r.b() ? c : mutate(r, c);
            std::string w = qs(a) + " ^ " + qs(b);
            StateOne x(a.sp, a.n, a.l, a.j, a.m), y(b.sp, b.n, b.l, b.j, b.m), u(c.sp, c.n, c.l, c.j, c.m), v(d.sp, d.n, d.l, d.j, d.m);
            check((x ^ y) == wild(a, b, true), "StateOne subset", "stateone-subset", w);
            check((StateTwo(x, u) ^ StateTwo(y, v)) == (wild(a, b, true) && wild(c, d, true)), "StateTwo subset", "statetwo-subset", w + qs(c) + qs(d));
            bool g = b.n == ARB || b.l == ARB || b.j == ARB || b.m == ARB;
            check(y.isGeneralized() == g, "isGeneralized", "generalized", qs(b));
            auto ga = StateTwo(u, y).isGeneralized();
            check(ga[1] == g && !ga[0] && StateTwo(u, y).isGeneralized(1) == g, "pair isGeneralized", "generalized-two", qs(b));
            StateOneOld xo(a.sp, a.n, a.l, a.j, a.m), yo(b.sp, b.n, b.l, b.j, b.m), uo(c.sp, c.n, c.l, c.j, c.m), vo(d.sp, d.n, d.l, d.j, d.m);
            check((xo ^ yo) == wild(a, b, false), "StateOneOld subset", "stateoneold-subset", w);
            StateTwoOld xt({{a.sp, c.sp}}, {{a.n, c.n}}, {{a.l, c.l}}, {{a.j, c.j}}, {{a.m, c.m}}), yt({{b.sp, d.sp}}, {{b.n, d.n}}, {{b.l, d.l}}, {{b.j, d.j}}, {{b.m, d.m}});
            check((xt ^ yt) == (wild(a, b, false) && wild(c, d, false)), "StateTwoOld subset", "statetwoold-subset", w + qs(c) + qs(d));
            StateOne z = u.getReflected();
            check(z.getSpecies() == c.sp && z.getN() == c.n && z.getL() == c.l && z.getJ() == c.j && z.getM() == -c.m && z.getReflected() == u && z.getReflected().getHash() == u.getHash(), "StateOne reflection", "stateone-reflect", qs(c));
            StateTwo t = StateTwo(u, v).getReflected();
            check(t.getFirstState() == u.getReflected() && t.getSecondState() == v.getReflected() && t.getReflected() == StateTwo(u, v), "StateTwo reflection", "statetwo-reflect", qs(c) + qs(d));
            // a species ending in a digit carries the multiplicity 2s+1
            std::string el = "El" + std::string(r.b() ? "" : "x");
            int k = r.i(1, 9);
            StateOne s1(el + std::to_string(k), 10, 1, 1, 0), s2(el, 10, 1, 1, 0);
            check(s1.getElement() == el && s1.getS() == (k - 1) / 2.f && s2.getElement() == el && s2.getS() == 0.5f, "species analysis", "species", el + std::to_string(k));
        });
}
void vf_replay(const std::string &w, const KV &kv) {
    auto ss = strings(kv, "_sp");
    auto q = [&](const std::string &p) { return Q{ss[p + "_sp"], (int)num(kv, p + "_n", 1), (int)num(kv, p + "_l"), (float)num(kv, p + "_j"), (float)num(kv, p + "_m")}; };
    guard("s02", "replay", [&] {
        Q a = q("a"), b = q("b");
        StateOne x(a.sp, a.n, a.l, a.j, a.m), y(b.sp, b.n, b.l, b.j, b.m);
        check((x ^ y) == wild(a, b, true), "StateOne subset", "stateone-subset", qs(a) + "^" + qs(b));
        StateOne z = x.getReflected();
        check(z.getSpecies() == a.sp && z.getN() == a.n && z.getL() == a.l && z.getJ() == a.j && z.getM() == -a.m, "reflection", "stateone-reflect", qs(a));
    });
}
#endif
