// S13: whatever was set, built, diagonalized or canonicalized before, the Hamiltonian is the one of a fresh system.
#include "sys.hpp"
using namespace vf;
template <class T> constexpr bool cplx = std::is_same<T, C>::value;
struct P1 {
    V3 e{{0, 0, 0}}, b{{0, 0, 0}};
    bool dia = true;
    int charge = 0;
    unsigned order = 0;
    double dist = std::numeric_limits<double>::max();
};
static V3 rv(Rng &r, double s, bool y) {
    V3 v{{0, 0, 0}};
    for (int k = 0; k < 3; ++k)
        if ((k != 1 || y) && r.i(0, 2)) v[k] = r.u(-s, s);
    return v;
}
template <class T> struct Hist1 {
    using S = SystemOne<T>;
    Rng &r;
    P1 p;
    V3 e{{0, 0, 0}}, b{{0, 0, 0}}; // the fields as seen by the (possibly rotated) atom
    std::string log;
    std::string sp = "Rb";
    std::set<int> n, l;
    std::set<float> m;
    explicit Hist1(Rng &r) : r(r) {
        n = r.b() ? std::set<int>{60} : std::set<int>{60, 61};
        l = std::set<int>{0, 1};
        if (r.b()) l.insert(2);
        if (r.b()) m = std::set<float>{-0.5f, 0.5f, 1.5f};
        if (r.i(0, 3) == 0) sp = "Sr3";
        if (sp == "Sr3") l = std::set<int>{0, 1}, m = std::set<float>{-1, 0, 1};
    }
    S fresh() {
        S s(sp, cache());
        s.restrictN(n), s.restrictL(l);
        if (!m.empty()) s.restrictM(m);
        return s;
    }
    bool apply1(S &s, int op) {
        switch (op) {
        case 0: p.e = rv(r, 20, cplx<T>), s.setEfield(p.e), log += "E" + v3(p.e); break;
        case 1: p.b = rv(r, 500, cplx<T>), s.setBfield(p.b), log += "B" + v3(p.b); break;
        case 2: p.dia = r.b(), s.enableDiamagnetism(p.dia), log += str("dia", p.dia); break;
        case 3: p.charge = r.i(-1, 1), s.setIonCharge(p.charge), log += str("charge", p.charge); break;
        case 4: p.order = r.i(0, 3), s.setRydIonOrder(p.order), log += str("order", p.order); break;
        case 5: p.dist = r.u(3, 10), s.setRydIonDistance(p.dist), log += str("ion", p.dist); break;
        case 6: s.buildBasis(), log += "basis"; break;
        case 7: s.buildInteraction(), log += "interaction"; break;
        case 8: s.buildHamiltonian(), log += "build"; break;
        case 9: s.diagonalize(), log += "diag"; break;
        case 10: s.canonicalize(), log += "canon"; break;
        case 11: s.getHamiltonian(), s.getBasisvectors(), log += "get"; break;
        }
        if (op <= 5) e = p.e, b = p.b;
        log += ";";
        return true;
    }
    // rotating the atom, with the fields that act on it
    void rotate(S &s) {
        double al = cplx<T> ? r.u(-7, 7) : 0, be = r.u(-7, 7), ga = cplx<T> ? r.u(-7, 7) : 0;
        Eigen::Matrix3d R = rot(al, be, ga).transpose();
        for (V3 *f : {&e, &b}) {
            Eigen::Vector3d w = R * Eigen::Vector3d((*f)[0], (*f)[1], (*f)[2]);
            *f = V3{{w[0], cplx<T> ? w[1] : 0, w[2]}};
        }
        s.rotate(al, be, ga), log += str("rotate", al, ",", be, ",", ga, ";");
    }
    // a smaller basis, asked for when it has been built already
    void shrink(S &s) {
        int o = r.i(0, 2);
        if (o == 0 && n.size() > 1) n.erase(r.b() ? *n.begin() : *n.rbegin()), s.restrictN(n), log += "N";
        if (o == 1 && l.size() > 1) l.erase(r.b() ? *l.begin() : *l.rbegin()), s.restrictL(l), log += "L";
        if (o == 2) {
            if (m.empty()) m = sp == "Sr3" ? std::set<float>{-1, 0, 1} : std::set<float>{-0.5f, 0.5f, 1.5f};
            else if (m.size() > 1) m.erase(r.b() ? *m.begin() : *m.rbegin());
            s.restrictM(m), log += "M";
        }
        log += "shrink;";
    }
    S reference() {
        S s = fresh();
        s.setEfield(e), s.setBfield(b), s.enableDiamagnetism(p.dia);
        s.setIonCharge(p.charge), s.setRydIonOrder(p.order), s.setRydIonDistance(p.dist);
        return s;
    }
    void run() {
        S s = fresh();
        int k = r.i(2, 9);
        bool rotations = m.empty() && r.b();
        for (int i = 0; i < k; ++i) {
            int op = r.i(0, 11);
            if (rotations && r.i(0, 3) == 0) rotate(s);
            else if (!rotations && r.i(0, 4) == 0 && log.find("diag;") == std::string::npos) shrink(s);
            else if (!(rotations && op == 3)) apply1(s, op);
        }
        compare(s, "history");
        if (r.b()) {
            s.diagonalize(), log += "diag;";
            compare(s, "diagonalized");
            check(diagonal(dense(s.getHamiltonian()), 1e-6), "one-atom histories", "not-diagonal", log);
        }
    }
    void compare(S &s, const char *what) {
        S f = reference();
        std::string why;
        auto a = hop(s), b = hop(f);
        bool ok = same(a, b, 1e-6, why);
        check(ok, "one-atom histories", std::string("one-") + what, sp + " " + log + " " + why);
        check(isometry(dense(s.getBasisvectors()), 1e-9) || log.find("canon") != std::string::npos, "one-atom histories", "basis-not-orthonormal", sp + " " + log);
        why.clear();
        bool eq1 = same(proj(s), proj(f), 1e-9, why);
        check(eq1, "one-atom histories", "space", sp + " " + log + " " + why);
    }
};
template <class T> struct Hist2 {
    using S = SystemTwo<T>;
    Rng &r;
    std::string log;
    // parameters in effect
    V3 d{{0, 0, std::numeric_limits<double>::max()}};
    double surf = std::numeric_limits<double>::max();
    bool gt = false;
    int order = 3;
    double e_lo, e_hi;
    SystemOne<T> one;
    parity_t inv = NA, perm = NA;
    static SystemOne<T> mk1(Rng &r) {
        SystemOne<T> s("Rb", cache());
        s.restrictN({60}), s.restrictL({0, 1});
        if (r.b()) s.restrictM({-0.5f, 0.5f});
        if (r.b()) s.setBfield({{0, 0, r.u(1, 50)}});
        return s;
    }
    explicit Hist2(Rng &r) : r(r), one(mk1(r)) {
        double e = StateOne("Rb", 60, 0, 0.5, 0.5).getEnergy(cache()) + StateOne("Rb", 60, 1, 0.5, 0.5).getEnergy(cache());
        e_lo = e - 30, e_hi = e + 30;
        if (r.b()) e_lo = -1e9, e_hi = 1e9;
        if (r.i(0, 3) == 0) inv = EVEN;
        if (r.i(0, 3) == 0) perm = ODD;
    }
    S fresh() {
        S s(one, one, cache());
        s.restrictEnergy(e_lo, e_hi);
        s.setConservedParityUnderInversion(inv), s.setConservedParityUnderPermutation(perm);
        return s;
    }
    // keep the settings compatible with each other
    void fix(S &s, bool angle) {
        if (angle && order > 4) s.setOrder(order = 4), log += "order4;";
        if (angle && order > 3 && !gt) s.enableGreenTensor(true), gt = true, log += "gt1;";
    }
    void setp(S &s, int op) {
        switch (op) {
        case 0: {
            d = {{r.b() ? 0 : r.u(-8, 8), cplx<T> && r.i(0, 3) == 0 && surf > 1e9 ? r.u(-8, 8) : 0, r.u(2, 8) * (r.b() ? 1 : -1)}};
            fix(s, d[0] != 0 || d[1] != 0);
            s.setDistanceVector(d), log += "vec" + v3(d);
            if (d[1] != 0) gt = true;
            break;
        }
        case 1: {
            double x = r.u(3, 9), o = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
            if (d[2] > 1e9) d = {{0, 0, x}};
            else for (auto &c : d) c *= x / o;
            s.setDistance(x), log += str("dist", x);
            break;
        }
        case 2: {
            if (d[2] > 1e9) break;
            double a = r.i(0, 2) ? r.u(0, 3.1) : 0, o = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
            fix(s, a != 0);
            d = {{o * std::sin(a), 0, o * std::cos(a)}};
            s.setAngle(a), log += str("angle", a);
            break;
        }
        case 3: {
            int mx = d[0] != 0 && !gt ? 3 : gt ? 4 : 5;
            order = r.i(3, mx), s.setOrder(order), log += str("order", order);
            break;
        }
        case 4: {
            bool need = surf < 1e9 || d[1] != 0 || (d[0] != 0 && order > 3);
            if (order > 4) break;
            gt = need || r.b(), s.enableGreenTensor(gt), log += str("gt", gt);
            break;
        }
        case 5: {
            if (d[1] != 0 || d[2] > 1e9 || order > 4) break;
            surf = r.u(9, 15), gt = true, s.setSurfaceDistance(surf), log += str("surface", surf);
            break;
        }
        }
        log += ";";
    }
    void op(S &s, int o) {
        switch (o) {
        case 0: s.buildBasis(), log += "basis"; break;
        case 1: s.buildInteraction(), log += "interaction"; break;
        case 2: s.buildHamiltonian(), log += "build"; break;
        case 3: s.diagonalize(), log += "diag"; break;
        case 4: s.canonicalize(), log += "canon"; break;
        case 5: s.getHamiltonian(), s.getBasisvectors(), log += "get"; break;
        }
        log += ";";
    }
    void run() {
        S s = fresh();
        int k = r.i(2, 8);
        for (int i = 0; i < k; ++i) r.b() ? setp(s, r.i(0, 5)) : op(s, r.i(0, 5));
        S f = fresh();
        // the same parameters, set once
        if (surf < 1e9) f.setSurfaceDistance(surf);
        f.enableGreenTensor(gt), f.setOrder(order);
        if (d[2] < 1e9) f.setDistanceVector(d);
        std::string why;
        bool eq2 = same(hop(s), hop(f), 2e-6, why);
        check(eq2, "two-atom histories", "two-history", log + " " + why);
        why.clear();
        bool eq3 = same(proj(s), proj(f), 1e-9, why);
        check(eq3, "two-atom histories", "two-space", log + " " + why);
        if (r.b()) {
            s.diagonalize(), log += "diag;";
            why.clear();
            bool eq4 = same(hop(s), hop(f), 2e-6, why);
            check(eq4, "two-atom histories", "two-diagonalized", log + " " + why);
            check(diagonal(dense(s.getHamiltonian()), 1e-6), "two-atom histories", "two-not-diagonal", log);
        }
    }
};
// a basis that is refused because it would be empty is refused again
static void refused(Rng &r) {
    SystemOne<double> one("Rb", cache());
    one.restrictN({60}), one.restrictL({0, 1});
    SystemTwo<double> t(one, one, cache()), u(one, one, cache());
    double a = r.u(1, 100);
    t.restrictEnergy(a, a + 1);
    std::string w = str("energies between ", a, " and ", a + 1);
    for (int k = 0; k < 2; ++k) check(throws([&] { t.buildBasis(); }), "refused bases", "empty-basis-is-built", str(w, ", attempt ", k + 1));
    u.buildBasis(), u.restrictEnergy(a, a + 1);
    for (int k = 0; k < 2; ++k) check(throws([&] { u.buildBasis(); }), "refused bases", "emptied-basis-is-rebuilt", str(w, " after the unrestricted basis was built, attempt ", k + 1));
}
// the basis vectors chosen after a diagonalization are still the ones after a change of parameters
static void chosen(Rng &r, bool diag) {
    SystemOne<double> s("Rb", cache());
    s.restrictN({60}), s.restrictL({0, 1, 2}), s.restrictM({0.5f});
    V3 e{{0, 0, r.u(5, 20)}};
    s.setEfield(e);
    if (diag) s.diagonalize();
    double e0 = StateOne("Rb", 60, 1, 0.5, 0.5).getEnergy(cache());
    s.restrictEnergy(e0 - 15, e0 + 15);
    auto a = proj(s);
    std::string why;
    s.getHamiltonian(), s.setEfield({{0, 0, r.u(5, 20)}}), s.getHamiltonian();
    bool eq5 = same(a, proj(s), 1e-9, why);
    check(eq5, "restricted histories", diag ? "space-after-restricting-diagonalized" : "space-after-restricting", str("E", v3(e), diag ? " diagonalized," : "", " restricted, E changed: ", why));
}
void vf_search(uint64_t seed, int n) {
    Quiet q;
    Rng r(seed);
    for (int i = 0; i < n; ++i) {
        { Hist1<double> h(r); try { h.run(); } catch (std::exception &e) { fail("one-throws", h.log + " unexpected exception: " + e.what()); } }
        { Hist1<C> h(r); try { h.run(); } catch (std::exception &e) { fail("one-throws", h.log + " unexpected exception: " + e.what()); } }
        if (i % 20 == 0) refused(r), chosen(r, false), chosen(r, true);
        if (i % 4 == 0) { Hist2<double> h(r); try { h.run(); } catch (std::exception &e) { fail("two-throws", h.log + " unexpected exception: " + e.what()); } }
        if (i % 4 == 2) { Hist2<C> h(r); try { h.run(); } catch (std::exception &e) { fail("two-throws", h.log + " unexpected exception: " + e.what()); } }
    }
}
void vf_replay(const std::string &, const KV &) {}
