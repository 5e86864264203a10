// S15: the Hamiltonian of an atom is H0 - d.E - mu.B + (e r x B)^2/8m + ion, with operators built from Cartesian coordinates.
#include "atom.hpp"
using namespace vf;
struct Par {
    V3 e{{0, 0, 0}}, b{{0, 0, 0}};
    bool dia = true;
    int charge = 0;
    unsigned order = 0;
    double dist = INF;
    std::string text() const { return str("E=", v3(e), " B=", v3(b), " diamagnetism=", dia, " charge=", charge, " order=", order, " distance=", dist); }
};
static M reference(const std::vector<StateOne> &st, const Par &p, double s) {
    int L = 0;
    for (auto &q : st)
        if (!q.isArtificial()) L = std::max(L, q.getL());
    Orb o(L + 3);
    Atom a(s, o);
    M one = M::Identity(o.x.rows(), o.x.rows());
    M eE = a.orb(p.e[0] * o.x + p.e[1] * o.y + p.e[2] * o.z);
    M nb = p.b[0] * o.x + p.b[1] * o.y + p.b[2] * o.z;
    double b2 = p.b[0] * p.b[0] + p.b[1] * p.b[1] + p.b[2] * p.b[2];
    M dia = a.orb(M(b2 * one - nb * nb));
    M mu = -bohr_magneton *
        (a.orb(M(p.b[0] * o.lx + p.b[1] * o.ly + p.b[2] * o.lz)) * gL + gS * a.spin(M(p.b[0] * a.sx + p.b[1] * a.sy + p.b[2] * a.sz)));
    std::vector<M> leg{M(), a.orb(o.z), a.orb(M((3. * o.z * o.z - one) / 2.)), a.orb(M((5. * o.z * o.z * o.z - 3. * o.z) / 2.))};
    Eigen::Index n = Eigen::Index(st.size());
    std::vector<Eigen::VectorXcd> v;
    for (auto &q : st) v.push_back(q.isArtificial() ? Eigen::VectorXcd() : a.vec(q.getL(), q.getJ(), q.getM()));
    M h = M::Zero(n, n);
    for (Eigen::Index i = 0; i < n; ++i) {
        if (st[i].isArtificial()) continue;
        h(i, i) += st[i].getEnergy(cache());
        for (Eigen::Index j = 0; j < n; ++j) {
            if (st[j].isArtificial()) continue;
            auto me = [&](const M &op) { return C((v[i].adjoint() * op * v[j])(0, 0)); };
            auto rad = [&](int k) { return cache().getRadial(st[i], st[j], k); };
            C x = me(eE);
            if (std::abs(x) > 1e-12) h(i, j) -= elementary_charge * rad(1) * x;
            x = me(mu);
            if (std::abs(x) > 1e-12 * std::sqrt(b2) * bohr_magneton) h(i, j) -= rad(0) * x;
            x = me(dia);
            if (p.dia && std::abs(x) > 1e-12) h(i, j) += elementary_charge * elementary_charge / (8 * electron_rest_mass) * rad(2) * x;
            if (p.charge && p.dist != INF)
                for (unsigned k = 1; k <= p.order; ++k) {
                    x = me(leg[k]);
                    if (std::abs(x) > 1e-12)
                        h(i, j) -= coulombs_constant * elementary_charge * elementary_charge * p.charge * rad(int(k)) * x / std::pow(p.dist, k + 1.);
                }
        }
    }
    return h;
}
static V3 rv(Rng &r, double s, bool y) {
    V3 v{{0, 0, 0}};
    for (int k = 0; k < 3; ++k)
        if ((k != 1 || y) && r.i(0, 2)) v[k] = r.u(-s, s);
    return v;
}
template <class T> struct Case {
    using S = SystemOne<T>;
    Rng &r;
    Par p;
    std::string sp = "Rb", log;
    double s = .5;
    explicit Case(Rng &r) : r(r) {}
    void basis(S &q, std::set<int> n, std::set<int> l) {
        q.restrictN(n), q.restrictL(l);
    }
    void run() {
        int w = r.i(0, 3);
        if (w == 0) sp = "Sr3", s = 1;
        if (w == 1) sp = "Sr1", s = 0;
        std::set<int> n{r.i(40, 60)};
        if (r.b()) n.insert(*n.begin() + 1);
        int l0 = r.i(0, w == 0 ? 1 : 3);
        std::set<int> l{l0};
        if (r.i(0, 3)) l.insert(l0 + 1);
        if (r.i(0, 2) == 0) l.insert(l0 + (w == 0 ? 0 : 2));
        S q(sp, cache());
        basis(q, n, l);
        if (r.i(0, 2) == 0) q.restrictJ(std::set<float>{float(std::abs(l0 - s)), float(l0 + s), float(l0 + 1 + s)});
        bool art = r.i(0, 5) == 0;
        if (art) q.addStates(StateOne("G"));
        p.e = r.i(0, 3) ? rv(r, 10, cplx<T>) : V3{{0, 0, 0}};
        p.b = r.i(0, 3) ? rv(r, 500, cplx<T>) : V3{{0, 0, 0}};
        p.dia = r.b();
        if (r.b()) p.charge = r.i(-2, 2), p.order = unsigned(r.i(0, 3)), p.dist = r.i(0, 4) ? r.u(1, 10) : INF;
        // some earlier values, some of them in effect
        if (r.i(0, 2) == 0) q.setEfield(rv(r, 5, cplx<T>)), log += "had a field;";
        if (r.i(0, 3) == 0) q.setBfield(rv(r, 200, cplx<T>)), q.buildHamiltonian(), log += "had a magnetic field;";
        if (!cplx<T> && r.i(0, 2) == 0) {
            bool t = throws([&] { q.setEfield(V3{{0, 1, 0}}); }), u = throws([&] { q.setBfield(V3{{1, -2, 0}}); });
            check(t && u, "fields", "imaginary-field-accepted", "a field along y was accepted by a real system");
            log += "refused fields;";
        }
        bool angles = r.i(0, 2) == 0;
        set(q, true, angles), set(q, false, angles);
        q.enableDiamagnetism(p.dia);
        q.setIonCharge(p.charge), q.setRydIonOrder(p.order), q.setRydIonDistance(p.dist);
        compare(q, "");
        if (!cplx<T> && r.b()) { // a refused field leaves no trace
            throws([&] { q.setEfield(V3{{0, 1, 0}}); });
            throws([&] { q.setBfield(V3{{0, 1, 0}}); });
            compare(q, "after refused fields");
            S o(sp, cache());
            basis(o, {*n.rbegin() + 3}, l);
            o.setEfield(p.e), o.setBfield(p.b), o.enableDiamagnetism(p.dia), o.setIonCharge(p.charge), o.setRydIonOrder(p.order), o.setRydIonDistance(p.dist);
            o.buildHamiltonian();
            q.buildHamiltonian();
            if (!angles) check(!throws([&] { q.add(o); }), "combining", "refused-field-left-a-trace", p.text());
        }
        combine(n, l);
    }
    void set(S &q, bool el, bool angles) {
        V3 f = el ? p.e : p.b;
        if (!angles) return el ? q.setEfield(f) : q.setBfield(f);
        double al = cplx<T> ? r.u(-4, 4) : 0, be = r.u(-4, 4), ga = cplx<T> ? r.u(-4, 4) : 0;
        Eigen::Matrix3d R = rot(al, be, ga);
        Eigen::Vector3d w(f[0], f[1], f[2]);
        // the components along the axes of the rotated coordinate system
        Eigen::Vector3d g(R.col(0).dot(w), R.col(1).dot(w), R.col(2).dot(w));
        if (!cplx<T>) g[1] = 0;
        (el ? p.e : p.b) = V3{{g[0], g[1], g[2]}};
        log += str("axes rotated by ", al, ",", be, ",", ga, ";");
        if (r.b()) return el ? q.setEfield(f, al, be, ga) : q.setBfield(f, al, be, ga);
        // the axes, up to their lengths; orthogonal up to rounding (retried, because the library is strict about it)
        V3 tz{{R(0, 2), R(1, 2), R(2, 2)}}, ty{{R(0, 1), R(1, 1), R(2, 1)}};
        if (!throws([&] { el ? q.setEfield(f, tz, ty) : q.setBfield(f, tz, ty); })) return;
        el ? q.setEfield(f, al, be, ga) : q.setBfield(f, al, be, ga);
    }
    void compare(S &q, const char *when) {
        auto a = hop(q);
        Op<StateOne> b;
        b.st = a.st;
        b.m = reference(a.st, p, s);
        std::string why;
        double tol = 1e-9 * (1 + a.m.cwiseAbs().maxCoeff());
        M dd = a.m - M(a.m.diagonal().asDiagonal());
        double bn = std::sqrt(p.b[0] * p.b[0] + p.b[1] * p.b[1] + p.b[2] * p.b[2]); // the library takes roots in single precision for magnetic dipoles
        tol = 1e-7 * (dd.size() ? dd.cwiseAbs().maxCoeff() : 0) + 1e-9 + tol * 1e-3 + 2e-6 * bn * bohr_magneton;
        bool eq = same(a, b, tol, why);
        check(eq, "Hamiltonian of an atom", str("hamiltonian-", cplx<T> ? "complex" : "real"), sp + " " + p.text() + " " + log + when + " " + why);
        M h = dense(q.getHamiltonian());
        check((h - h.adjoint()).cwiseAbs().maxCoeff() <= tol, "Hamiltonian of an atom", "not-hermitian", sp + " " + p.text() + " " + log);
    }
    void combine(const std::set<int> &n, const std::set<int> &l) {
        S a(sp, cache()), b(sp, cache());
        basis(a, n, l), basis(b, {*n.rbegin() + 2}, l);
        Par x = p, y = p;
        int w = r.i(0, 6);
        if (w == 1) y.e[2] += 1;
        if (w == 2) y.b[0] += 1;
        if (w == 3) y.dia = !y.dia;
        if (w == 4) y.charge += 1;
        if (w == 5) y.order += 1;
        if (w == 6) y.dist = 2.5;
        for (auto *t : {&x, &y}) {
            S &q = t == &x ? a : b;
            q.setEfield(t->e), q.setBfield(t->b), q.enableDiamagnetism(t->dia), q.setIonCharge(t->charge), q.setRydIonOrder(t->order), q.setRydIonDistance(t->dist);
        }
        bool t = throws([&] { a.add(b); });
        check(t == (w != 0), "combining", w ? "different-systems-combined" : "equal-systems-refused", str("difference ", w, " ", p.text()));
        if (!w) compare(a, "combined of two bases");
    }
};
void vf_search(uint64_t seed, int n) {
    Quiet q;
    Rng r(seed);
    for (int i = 0; i < n; ++i) {
        { Case<double> h(r); try { h.run(); } catch (std::exception &e) { fail("throws", h.sp + " " + h.p.text() + " " + h.log + " unexpected exception: " + e.what()); } }
        { Case<C> h(r); try { h.run(); } catch (std::exception &e) { fail("throws", h.sp + " " + h.p.text() + " " + h.log + " unexpected exception: " + e.what()); } }
    }
}
void vf_replay(const std::string &, const KV &) {}
