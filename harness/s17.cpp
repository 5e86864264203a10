// S17: a basis contains exactly the states asked for, and symmetrized bases are orthonormal sectors of it.
#include "sys.hpp"
using namespace vf;
// the name of a state; a momentum of -0 is one of 0
template <class St> std::string nam(const St &s) {
    std::string t = s.str();
    for (size_t k; (k = t.find("mj=-0")) != std::string::npos;) t.erase(k + 3, 1);
    return t;
}
template <class T> constexpr bool cplx = std::is_same<T, C>::value;
static double spin(const std::string &sp) { return std::isdigit(sp.back()) ? (sp.back() - '1') / 2. : 0.5; }
// what a user can ask for: a set of allowed values, or nothing
template <class V> struct Range {
    bool on = false;
    std::set<V> v;
    bool has(double x) const { return !on || v.count(V(x)); }
};
struct Ask {
    std::string sp;
    Range<int> n, l;
    Range<float> j, m;
    bool e = false;
    double e0 = 0, e1 = 0;
    std::string text() const {
        std::ostringstream o;
        o << sp;
        auto put = [&](const char *c, auto &r) {
            if (!r.on) return;
            o << " " << c << "{";
            for (auto x : r.v) o << x << ",";
            o << "}";
        };
        put("n", n), put("l", l), put("j", j), put("m", m);
        if (e) o << " E(" << e0 << "," << e1 << ")";
        return o.str();
    }
    bool energy(double x) const { return !e || (x > e0 && x < e1); }
    bool numbers(const StateOne &s) const { return s.isArtificial() || (n.has(s.getN()) && l.has(s.getL()) && j.has(s.getJ()) && m.has(s.getM())); }
};
template <class V> Range<V> choose(Rng &r, V lo, V hi, V step) {
    Range<V> g;
    g.on = true;
    for (V x = lo; x <= hi; x += step)
        if (r.i(0, 2)) g.v.insert(x);
    return g;
}
static bool reference = false; // the energies of all states asked for are known
static std::vector<StateOne> wanted(const Ask &a) {
    reference = false;
    std::vector<StateOne> w;
    double s = spin(a.sp);
    for (int n : a.n.v)
        for (int l = 0; l < n && l < 5; ++l)
            for (double j = std::fabs(l - s); j <= l + s; ++j) {
                if (!a.l.has(l) || !a.j.has(j)) continue;
                if (!a.energy(StateOne(a.sp, n, l, j, s).getEnergy(cache()))) continue;
                for (double m = -j; m <= j; ++m)
                    if (a.m.has(m)) w.emplace_back(a.sp, n, l, j, m);
            }
    reference = true;
    return w;
}
static Ask ask(Rng &r, const std::string &sp, bool small) {
    Ask a;
    a.sp = sp;
    double s = spin(sp), f = s - std::floor(s);
    a.n.on = true;
    int n0 = r.i(0, 5) ? 60 : 5;
    a.n.v.insert(n0);
    if (!small && r.b()) a.n.v.insert(n0 + r.i(1, 2));
    a.l = choose<int>(r, -1, small ? 1 : 4, 1); // l is always limited: the cases stay small
    if (r.b()) a.j = choose<float>(r, f - 1, 4, r.i(0, 3) ? 1 : 0.5);
    if (r.b()) a.m = choose<float>(r, f - 3, 3, r.i(0, 3) ? 1 : 0.5);
    if (a.j.on && a.j.v.empty()) a.j.on = false;
    if (a.m.on && a.m.v.empty()) a.m.on = false;
    if (a.l.v.empty()) a.l.v.insert(1);
    if (r.b()) {
        int l = r.i(0, 2) ? 1 : 0;
        double x = StateOne(sp, n0, l, l + s, s).getEnergy(cache());
        a.e = true;
        a.e0 = x - r.u(0, 200), a.e1 = x + r.u(0, 200);
        if (r.i(0, 5) == 0) a.e1 = a.e0 - 1; // nothing
    }
    return a;
}
template <class S> void restrict(S &s, const Ask &a, Rng &r) {
    auto consecutive = [](auto &v) {
        for (auto i = v.begin(); std::next(i) != v.end(); ++i)
            if (*std::next(i) != *i + 1) return false;
        return true;
    };
    bool mm = r.b();
    if (a.n.on) mm && consecutive(a.n.v) ? s.restrictN(*a.n.v.begin(), *a.n.v.rbegin()) : s.restrictN(a.n.v);
    if (a.l.on) mm && consecutive(a.l.v) ? s.restrictL(*a.l.v.begin(), *a.l.v.rbegin()) : s.restrictL(a.l.v);
    if (a.j.on) mm && consecutive(a.j.v) ? s.restrictJ(*a.j.v.begin(), *a.j.v.rbegin() + 0.25f) : s.restrictJ(a.j.v);
    if (a.m.on) mm && consecutive(a.m.v) ? s.restrictM(*a.m.v.begin(), *a.m.v.rbegin() + 0.25f) : s.restrictM(a.m.v);
    if (a.e) s.restrictEnergy(a.e0, a.e1);
}
template <class St> std::string list(std::vector<St> v) {
    std::vector<std::string> t;
    for (auto &x : v) t.push_back(nam(x));
    std::sort(t.begin(), t.end());
    std::string o;
    for (auto &x : t) o += x + " ";
    return o;
}
// the differences of two lists of states
template <class St> std::string differ(const std::vector<St> &got, const std::vector<St> &want) {
    std::multiset<std::string> a, b;
    for (auto &x : got) a.insert(nam(x));
    for (auto &x : want) b.insert(nam(x));
    for (auto &x : a)
        if (!b.count(x) || a.count(x) > b.count(x)) return "superfluous " + x;
    for (auto &x : b)
        if (!a.count(x)) return "missing " + x;
    return "";
}
static double energy(const StateOne &s) { return s.isArtificial() ? 0 : s.getEnergy(cache()); }
static double energy(const StateTwo &s) { return energy(s.getFirstState()) + energy(s.getSecondState()); }
// states, orthonormal basis vectors, their energies
template <class S, class St> void contents(S &s, const std::vector<St> &want, const std::string &w, bool plain) {
    std::string d;
    try {
        auto st = s.getStates();
        d = differ(st, want);
        if (!check(d.empty(), "contents", "states", w + ": " + d)) return;
        M b = dense(s.getBasisvectors()), h = dense(s.getHamiltonian());
        check(isometry(b, 1e-9), "contents", "orthonormal", w);
        if (!plain) return;
        check(size_t(b.cols()) == want.size(), "contents", "number-of-vectors", w + str(": ", b.cols(), " instead of ", want.size()));
        M e = M::Zero(st.size(), st.size());
        for (size_t i = 0; i < st.size(); ++i) e(i, i) = energy(st[i]);
        check((b * h * b.adjoint() - e).cwiseAbs().maxCoeff() < 1e-7, "contents", "energies", w);
    } catch (std::runtime_error &x) {
        check(want.empty(), "contents", "refused", w + ": " + x.what());
        return;
    }
    check(!want.empty(), "contents", "accepted-empty", w);
}
template <class T> void one_atom(Rng &r) {
    Quiet q;
    const char *sps[] = {"Rb", "Cs", "Sr1", "Sr3"};
    Ask a = ask(r, sps[r.i(0, 3)], false);
    SystemOne<T> s(a.sp, cache());
    restrict(s, a, r);
    auto want = wanted(a);
    std::string w = "one atom " + a.text();
    int extra = r.i(0, 5);
    double sp = spin(a.sp);
    if (extra == 1) { // a state that is not in the ranges, and an artificial one
        StateOne x(a.sp, 70, 2, 2 + sp, sp - std::floor(sp));
        s.addStates(x), s.addStates(std::set<StateOne>{StateOne("G")});
        want.push_back(x), want.push_back(StateOne("G"));
        w += " + " + nam(x) + " + G";
    } else if (extra == 2 && !want.empty()) {
        s.addStates(want[r.i(0, want.size() - 1)]);
        bool ok = true;
        try {
            s.buildBasis();
            ok = false;
        } catch (std::runtime_error &) {
        }
        check(ok, "refusals", "doubled-state", w);
        return;
    } else if (extra == 3) {
        s.addStates(StateOne(a.sp == "Cs" ? "Rb" : "Cs", 70, 0, 0.5, 0.5));
        bool ok = true;
        try {
            s.buildBasis();
            ok = false;
        } catch (std::runtime_error &) {
        }
        check(ok, "refusals", "wrong-species", w);
        return;
    }
    contents(s, want, w, true);
    if (want.empty()) return;
    try {
        s.buildBasis();
    } catch (std::runtime_error &) {
        return;
    }
    // once the basis is there: states cannot be added, but it can be restricted further
    if (r.i(0, 3) == 0) {
        bool ok = true;
        s.addStates(StateOne(a.sp, 71, 2, 2 + sp, sp - std::floor(sp)));
        try {
            s.buildBasis();
            ok = false;
        } catch (std::runtime_error &) {
        }
        check(ok, "refusals", "states-added-late", w);
        return;
    }
    Ask b = ask(r, a.sp, false);
    b.n.v = a.n.v, b.n.on = r.b();
    if (r.b()) b.l.on = false;
    restrict(s, b, r);
    std::vector<StateOne> left;
    for (auto &x : want)
        if (b.numbers(x) && b.energy(energy(x))) left.push_back(x);
    if (left.empty()) return; // S13: an emptied basis
    contents(s, left, w + " then " + b.text(), true);
}
static std::vector<StateTwo> pairs(const std::vector<StateOne> &a, const std::vector<StateOne> &b) {
    std::vector<StateTwo> p;
    for (auto &x : a)
        for (auto &y : b) p.emplace_back(x, y);
    return p;
}
template <class T> void two_atoms(Rng &r) {
    Quiet q;
    Ask a = ask(r, "Rb", true), b = ask(r, r.b() ? "Rb" : "Sr3", true), c = ask(r, "Rb", true);
    auto wa = wanted(a), wb = wanted(b);
    if (wa.empty() || wb.empty()) return;
    SystemOne<T> s1(a.sp, cache()), s2(b.sp, cache());
    restrict(s1, a, r), restrict(s2, b, r);
    SystemTwo<T> s(s1, s2, cache());
    c.n.v.insert(a.n.v.begin(), a.n.v.end()), c.n.v.insert(b.n.v.begin(), b.n.v.end());
    c.n.on = r.b(), c.l.on = r.b();
    if (r.b()) c.j.on = false;
    if (r.b()) c.m.on = false;
    c.e = false;
    std::vector<StateOne> x, y;
    for (auto &i : wa)
        if (c.numbers(i)) x.push_back(i);
    for (auto &i : wb)
        if (c.numbers(i)) y.push_back(i);
    auto all = pairs(x, y);
    if (all.empty()) return;
    if (r.b()) {
        double e = energy(r.pick(all));
        c.e = true, c.e0 = e - r.u(0, 100), c.e1 = e + r.u(0, 100);
    }
    int M0 = r.i(-2, 2);
    bool rot = r.i(0, 2) == 0 && (2 * spin(a.sp) + 2 * spin(b.sp)) == std::floor(2 * spin(a.sp) + 2 * spin(b.sp)) && a.sp == b.sp;
    if (rot) s.setConservedMomentaUnderRotation({M0});
    restrict(s, c, r);
    std::vector<StateTwo> want;
    for (auto &i : all)
        if (c.energy(energy(i)) && (!rot || std::lround(i.getM(0) + i.getM(1)) == M0)) want.push_back(i);
    std::string w = "pair " + a.text() + " | " + b.text() + " restricted " + c.text() + (rot ? str(" M=", M0) : "");
    if (r.i(0, 3) == 0) {
        StateTwo g(StateOne("G"), x[0]), h(StateOne(a.sp, 80, 0, 0.5, 0.5), StateOne(b.sp, 81, 0, spin(b.sp), spin(b.sp)));
        s.addStates(g), s.addStates(h);
        if (y[0].getSpecies() == x[0].getSpecies() || true) {
            if (b.sp != a.sp) g = StateTwo(x[0], StateOne("G"));
        }
        SystemTwo<T> t(s1, s2, cache());
        if (rot) t.setConservedMomentaUnderRotation({M0});
        restrict(t, c, r);
        t.addStates(g);
        t.addStates(h);
        want.push_back(g);
        if (!rot || std::lround(h.getM(0) + h.getM(1)) == M0) want.push_back(h);
        contents(t, want, w + " + " + g.str() + " + " + h.str(), true);
        return;
    }
    contents(s, want, w, true);
}
// a symmetry as a signed permutation of states
template <class St> M symmetry(const std::vector<St> &st, const std::function<std::pair<St, C>(const St &)> &f) {
    std::map<std::string, size_t> at;
    for (size_t i = 0; i < st.size(); ++i) at[nam(st[i])] = i;
    M m = M::Zero(st.size(), st.size());
    for (size_t i = 0; i < st.size(); ++i) {
        auto p = f(st[i]);
        auto k = at.find(nam(p.first));
        if (k != at.end()) m(k->second, i) = p.second;
    }
    return m;
}
template <class T, class S> M rows(S &s, const std::vector<std::string> &names) {
    M b = dense(s.getBasisvectors()), r = M::Zero(names.size(), b.cols());
    auto st = s.getStates();
    for (size_t i = 0; i < st.size(); ++i) {
        size_t k = std::find(names.begin(), names.end(), nam(st[i])) - names.begin();
        if (k < names.size()) r.row(k) += b.row(i);
    }
    return r;
}
static const char *nm(parity_t p) { return p == EVEN ? "even" : p == ODD ? "odd" : "-"; }
static double val(parity_t p) { return p == EVEN ? 1 : -1; }
// the sectors of a space: orthonormal, symmetric, complete
struct Sectors {
    M all;
    std::vector<std::string> names;
    explicit Sectors(std::vector<std::string> n) : all(M::Zero(n.size(), 0)), names(n) {}
    void add(const M &b) {
        M c(names.size(), all.cols() + b.cols());
        c << all, b;
        all = c;
    }
    void done(const std::string &w, const std::string &key, bool one = false) {
        bool n = all.cols() == Eigen::Index(names.size());
        check(n, "sectors", key + (one ? "" : "-dimension"), w + str(": the sectors have ", all.cols(), " vectors, the space ", names.size()));
        if (n) check(isometry(all, 1e-9), "sectors", key + (one ? "" : "-orthonormal"), w);
    }
};
template <class St> std::vector<std::string> strs(const std::vector<St> &v) {
    std::vector<std::string> n;
    for (auto &x : v) n.push_back(nam(x));
    return n;
}
static void reflection_one(Rng &r) {
    Quiet q;
    const char *sps[] = {"Rb", "Cs", "Sr1", "Sr3"};
    Ask a = ask(r, sps[r.i(0, 3)], true);
    a.m.on = false;
    auto st = wanted(a);
    if (st.empty()) return;
    Sectors sec(strs(st));
    // reflection at the xz-plane: parity times a rotation by pi about y, times i for half-integer spin (eigenvalues +-1)
    M R = symmetry<StateOne>(st, [&](const StateOne &s) {
        double j = s.getJ(), m = s.getM();
        return std::make_pair(StateOne(s.getSpecies(), s.getN(), s.getL(), j, -m), C(sgn(s.getL() + m - j)) * (std::floor(j) == j ? C(1) : C(0, 1)));
    });
    for (parity_t p : {EVEN, ODD}) {
        SystemOne<C> s(a.sp, cache());
        restrict(s, a, r);
        s.setConservedParityUnderReflection(p);
        try {
            M b = rows<C>(s, sec.names);
            check((R * b - val(p) * b).cwiseAbs().maxCoeff() < 1e-9, "sectors", "reflected-atom", a.text() + " reflection " + nm(p));
            sec.add(b);
        } catch (std::runtime_error &) { // the sector is empty
        }
    }
    sec.done(a.text() + " reflection", "reflected-atom");
    // rotation: the sectors of single momenta
    Sectors rot(strs(st));
    std::set<float> ms;
    for (auto &s : st) ms.insert(s.getM());
    for (float m : ms) {
        SystemOne<C> s(a.sp, cache());
        restrict(s, a, r);
        s.setConservedMomentaUnderRotation({m});
        for (auto &x : s.getStates()) check(x.getM() == m, "sectors", "rotated-atom", a.text() + str(" m=", m, " contains ", nam(x)));
        rot.add(rows<C>(s, rot.names));
    }
    rot.done(a.text() + " rotation", "rotated-atom");
}
template <class T> void sectors_two(Rng &r) {
    Quiet q;
    const char *sps[] = {"Rb", "Rb", "Sr1", "Sr3"};
    Ask a = ask(r, sps[r.i(0, 3)], true);
    a.m.on = false, a.e = false;
    bool refl = cplx<T> && r.b(), inv = r.b(), perm = r.b(), rot = r.b();
    if (!refl && !inv && !perm) inv = true;
    std::vector<StateOne> st1 = wanted(a);
    if (st1.empty() || st1.size() > 12) return;
    auto st = pairs(st1, st1);
    // states of the user: both orders, or the symmetry cannot be realized
    std::set<StateTwo> more;
    if (!refl && r.b()) {
        double sp = spin(a.sp);
        StateOne x(a.sp, 80, 0, sp, sp), y(a.sp, 81, r.i(0, 1), 0, 0);
        y = StateOne(a.sp, 81, y.getL(), y.getL() + sp, r.b() ? y.getL() + sp : -sp);
        more = {StateTwo(x, y), StateTwo(y, x)};
        if (r.b()) more.insert(StateTwo(x, x));
        if (r.b() && !inv && !rot) more.insert(StateTwo(StateOne("G"), x)), more.insert(StateTwo(x, StateOne("G")));
        st.insert(st.end(), more.begin(), more.end());
    }
    SystemOne<T> s1(a.sp, cache());
    restrict(s1, a, r);
    std::string w = a.text() + (more.empty() ? "" : str(" + ", more.size(), " states")) + (refl ? " reflection" : "") + (inv ? " inversion" : "") + (perm ? " permutation" : "") + (rot ? " rotation" : "");
    if (refl) { // atoms symmetrized before
        SystemOne<T> e(s1), o(s1);
        e.setConservedParityUnderReflection(EVEN), o.setConservedParityUnderReflection(ODD);
        bool he = true, ho = true;
        try {
            e.buildHamiltonian();
        } catch (std::runtime_error &) {
            he = false;
        }
        try {
            o.buildHamiltonian();
        } catch (std::runtime_error &) {
            ho = false;
        }
        if (!he && !ho) return;
        if (he && ho) e.add(o);
        s1 = he ? e : o;
    }
    auto L = [](const StateTwo &s) { return s.isArtificial(0) || s.isArtificial(1) ? 1 : sgn(s.getL(0) + s.getL(1)); };
    M I = symmetry<StateTwo>(st, [&](const StateTwo &s) { return std::make_pair(StateTwo(s.getSecondState(), s.getFirstState()), C(-L(s))); });
    M P = symmetry<StateTwo>(st, [&](const StateTwo &s) { return std::make_pair(StateTwo(s.getSecondState(), s.getFirstState()), C(-1)); });
    M R = symmetry<StateTwo>(st, [&](const StateTwo &s) {
        if (s.isArtificial(0) || s.isArtificial(1)) return std::make_pair(s, C(1));
        return std::make_pair(StateTwo(s.getFirstState().getReflected(), s.getSecondState().getReflected()), C(L(s) * sgn(s.getJ(0) + s.getJ(1)) * sgn(s.getM(0) + s.getM(1))));
    });
    // one key for everything that fails if the two symmetries are combined (known finding)
    const bool rr = refl && rot;
    auto key = [rr](const char *k) { return std::string(rr ? "reflection-with-rotation" : k); };
    Sectors sec(strs(st));
    std::set<int> ms;
    for (auto &s : st) {
        if (s.isArtificial(0) || s.isArtificial(1)) continue;
        int m = std::lround(s.getM(0) + s.getM(1));
        ms.insert(refl ? std::abs(m) : m); // reflection turns the momentum round
    }
    std::vector<parity_t> two{EVEN, ODD}, none{NA};
    for (parity_t i : inv ? two : none)
        for (parity_t p : perm ? two : none)
            for (parity_t f : refl ? two : none)
                for (int m : rot ? ms : std::set<int>{ARB}) {
                    SystemTwo<T> s(s1, s1, cache());
                    if (!more.empty()) s.addStates(more);
                    if (inv) s.setConservedParityUnderInversion(i);
                    if (perm) s.setConservedParityUnderPermutation(p);
                    if (refl) s.setConservedParityUnderReflection(f);
                    if (rot) s.setConservedMomentaUnderRotation(refl ? std::set<int>{m, -m} : std::set<int>{m});
                    std::string v = w + " " + nm(i) + nm(p) + nm(f) + (rot ? str(" M=", m) : "");
                    try {
                        s.buildBasis();
                    } catch (std::runtime_error &) {
                        continue;
                    }
                    M b = rows<T>(s, sec.names);
                    if (inv) check((I * b - val(i) * b).cwiseAbs().maxCoeff() < 1e-9, "sectors", key("inverted-pair"), v);
                    if (perm) check((P * b - val(p) * b).cwiseAbs().maxCoeff() < 1e-9, "sectors", key("permuted-pair"), v);
                    if (refl) check((R * b - val(f) * b).cwiseAbs().maxCoeff() < 1e-9, "sectors", key("reflected-pair"), v);
                    if (rot)
                        for (auto &x : s.getStates()) check((refl ? std::abs(std::lround(x.getM(0) + x.getM(1))) : std::lround(x.getM(0) + x.getM(1))) == m, "sectors", key("rotated-pair"), v + " contains " + nam(x));
                    M h = dense(s.getHamiltonian()), e = M::Zero(st.size(), st.size());
                    for (size_t k = 0; k < st.size(); ++k) e(k, k) = energy(st[k]);
                    bool eq = (h - M(b.adjoint() * e * b)).cwiseAbs().maxCoeff() < 1e-7;
                    check(eq, "sectors", key("energies-of-symmetrized-pairs"), v);
                    sec.add(b);
                }
    sec.done(w, key("pair"), rr);
}
static void infinite(Rng &r) {
    Quiet q;
    SystemOne<double> s("Rb", cache());
    if (r.b()) s.restrictL(std::set<int>{0, 1});
    if (r.b()) s.restrictM(-0.5, 0.5);
    bool ok = true;
    try {
        s.buildBasis();
        ok = false;
    } catch (std::runtime_error &) {
    }
    check(ok, "refusals", "infinite", "no principal quantum number");
    // taking a conserved momentum back gives all the states again
    for (bool first : {false, true}) {
        SystemOne<double> t("Rb", cache());
        t.restrictN(60, 60), t.restrictL(0, 1);
        if (first) t.setConservedMomentaUnderRotation({0.5f});
        try {
            t.setConservedMomentaUnderRotation({float(ARB)});
            check(t.getStates().size() == 8, "refusals", "arb-alone", str(t.getStates().size(), " states"));
            SystemTwo<double> u(t, t, cache());
            if (first) u.setConservedMomentaUnderRotation({1});
            u.setConservedMomentaUnderRotation({ARB});
            check(u.getStates().size() == 64, "refusals", "arb-alone", str(u.getStates().size(), " pairs"));
        } catch (std::exception &e) {
            fail("arb-alone", e.what());
        }
    }
    for (auto bad : {std::set<int>{ARB, 0}, std::set<int>{1, ARB}}) {
        SystemTwo<double> t(s, s, cache());
        ok = true;
        try {
            t.setConservedMomentaUnderRotation(bad);
            ok = false;
        } catch (std::runtime_error &) {
        }
        check(ok, "refusals", "arb-and-momenta", "");
    }
}
// species without quantum defects for the numbers asked for are skipped
template <class F> void run(F f, Rng &r, const char *what) {
    reference = false;
    try {
        f(r);
    } catch (std::exception &e) {
        if (reference || std::string(e.what()).find("no defect available") == std::string::npos) fail("throws", std::string(what) + ": unexpected exception: " + e.what());
    }
}
void vf_search(uint64_t seed, int n) {
    Rng r(seed);
    for (int k = 0; k < n; ++k) {
        r.b() ? run(one_atom<C>, r, "one atom") : run(one_atom<double>, r, "one atom");
        r.b() ? run(two_atoms<C>, r, "two atoms") : run(two_atoms<double>, r, "two atoms");
        run(reflection_one, r, "reflection");
        r.b() ? run(sectors_two<C>, r, "sectors") : run(sectors_two<double>, r, "sectors");
        if (k % 8 == 0) infinite(r);
    }
}
void vf_replay(const std::string &, const KV &) {}
