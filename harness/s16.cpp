// S16: the interaction of two atoms is the Coulomb energy of their electrons and cores, expanded to the given order, along any
// direction, and in front of a conducting plane (image charges).
#include "atom.hpp"
using namespace vf;
using Mono = std::array<int, 6>; // powers of x1 y1 z1 x2 y2 z2
using Poly = std::map<Mono, double>;
static Poly mul(const Poly &a, const Poly &b) {
    Poly r;
    for (auto &x : a)
        for (auto &y : b) {
            Mono m;
            for (int i = 0; i < 6; ++i) m[i] = x.first[i] + y.first[i];
            r[m] += x.second * y.second;
        }
    return r;
}
static Poly add(const Poly &a, const Poly &b, double f = 1) {
    Poly r = a;
    for (auto &y : b) r[y.first] += f * y.second;
    return r;
}
static Poly scale(const Poly &a, double f) { return add(Poly(), a, f); }
static Poly power(const Poly &a, int n) {
    Poly r{{Mono{}, 1}};
    for (int i = 0; i < n; ++i) r = mul(r, a);
    return r;
}
// |r|^n P_n(cos) as a polynomial of u = n.r and |r|^2, by the recursion of the Legendre polynomials
static Poly legendre(const Poly &u, const Poly &rr, int n) {
    Poly a{{Mono{}, 1}}, b = u;
    if (n == 0) return a;
    for (int k = 1; k < n; ++k) {
        Poly c = scale(add(scale(mul(u, b), 2 * k + 1), mul(rr, a), -k), 1. / (k + 1));
        a = b, b = c;
    }
    return b;
}
// 1/|R + r| to degree n = order - 1 in r = s.r2 - r1 (componentwise signs s), mixed terms only
static Poly coulomb(const V3 &R, const V3 &s, unsigned order) {
    double d = std::sqrt(R[0] * R[0] + R[1] * R[1] + R[2] * R[2]);
    Poly u, rr, sum;
    for (int i = 0; i < 3; ++i) {
        Mono a{}, b{};
        a[i] = 1, b[3 + i] = 1;
        Poly x{{a, -1}, {b, s[i]}};
        u = add(u, x, R[i] / d), rr = add(rr, mul(x, x));
    }
    for (unsigned n = 2; n + 1 <= order; ++n)
        for (auto &m : legendre(u, rr, int(n))) {
            int k1 = m.first[0] + m.first[1] + m.first[2], k2 = m.first[3] + m.first[4] + m.first[5];
            if (k1 && k2) sum[m.first] += m.second * ((n % 2) ? -1 : 1) / std::pow(d, n + 1);
        }
    return sum;
}
// matrix elements of x^a y^b z^c between fine-structure states
struct Ops {
    Orb o;
    Atom a;
    std::vector<StateOne> st;
    std::vector<Eigen::VectorXcd> v;
    std::map<std::array<int, 3>, M> memo;
    static int top(const std::vector<StateOne> &s) {
        int l = 0;
        for (auto &q : s) l = std::max(l, q.getL());
        return l;
    }
    Ops(const std::vector<StateOne> &st, double s, unsigned order) : o(top(st) + int(order)), a(s, o), st(st) {
        for (auto &q : st) v.push_back(a.vec(q.getL(), q.getJ(), q.getM()));
    }
    const M &get(int x, int y, int z) {
        auto it = memo.find({x, y, z});
        if (it != memo.end()) return it->second;
        M p = M::Identity(o.x.rows(), o.x.rows());
        for (int i = 0; i < x; ++i) p = o.x * p;
        for (int i = 0; i < y; ++i) p = o.y * p;
        for (int i = 0; i < z; ++i) p = o.z * p;
        p = a.orb(p);
        Eigen::Index n = Eigen::Index(st.size());
        M r = M::Zero(n, n);
        for (Eigen::Index i = 0; i < n; ++i)
            for (Eigen::Index j = 0; j < n; ++j) {
                C w = (v[i].adjoint() * p * v[j])(0, 0);
                if (std::abs(w) > 1e-12) r(i, j) = w * elementary_charge * cache().getRadial(st[i], st[j], x + y + z);
            }
        return memo[{x, y, z}] = r;
    }
};
template <class T> struct Case {
    using S1 = SystemOne<T>;
    using S2 = SystemTwo<T>;
    Rng &r;
    std::string log;
    V3 d{{0, 0, 0}};
    unsigned order = 3;
    double surf = INF;
    explicit Case(Rng &r) : r(r) {}
    static double spin(const std::string &s) { return s == "Sr1" ? 0 : s == "Sr3" ? 1 : .5; }
    S1 atom(const std::string &sp) {
        S1 q(sp, cache());
        bool sr = sp == "Sr3";
        std::set<int> l = r.i(0, 2) ? std::set<int>{0, 1} : sr ? std::set<int>{1} : std::set<int>{1, 2};
        std::set<float> j, m;
        float s = float(spin(sp));
        if (sr) j = {1.f}, m = {-1.f, 0.f, 1.f};
        else if (r.b()) j = {std::abs(1 - s), 1 + s};
        q.restrictN({r.i(40, 60)}), q.restrictL(l);
        if (!j.empty()) q.restrictJ(j);
        if (!m.empty()) q.restrictM(m);
        if (r.i(0, 2) == 0) q.setEfield({{r.b() ? 0 : r.u(-1, 1), 0, r.u(-1, 1)}}), log += "with field;";
        return q;
    }
    bool gt = false;
    void geometry(S2 &s) {
        int w = r.i(0, 5);
        double D = r.u(2, 8);
        if (w == 0) d = {{0, 0, D}}, s.setDistance(D), log += "distance;";
        if (w == 1) d = {{0, 0, -D}}, s.setDistanceVector(d), log += "vector;";
        if (w == 2 || w == 3) {
            double a = w == 2 ? r.u(-7, 7) : r.i(-4, 4) * M_PI / 4;
            d = {{D * std::sin(a), 0, D * std::cos(a)}};
            if (r.b()) s.setDistance(D), s.setAngle(a);
            else s.setAngle(a), s.setDistance(D);
            log += str("angle ", a, ";");
        }
        if (w == 4) d = {{r.u(-4, 4), 0, r.u(-4, 4)}}, s.setDistanceVector(d), log += "vector;";
        if (w == 5) {
            d = {{r.u(-4, 4), cplx<T> ? r.u(-4, 4) : 0, r.u(-4, 4)}};
            if (r.b()) {
                s.setDistanceVector({{1, 0, 2}}), s.setDistance(5);
                log += "other vector before;";
            }
            s.setDistanceVector(d), log += "vector;";
            if (r.b()) { // a distance keeps the direction
                double o = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]), x = r.u(3, 9);
                for (auto &c : d) c *= x / o;
                s.setDistance(x);
            }
        }
        bool x = d[0] != 0, y = d[1] != 0;
        order = unsigned(r.i(0, 3) ? r.i(3, 4) : r.i(1, 6));
        if ((x || y) && order > 4) order = 4;
        if (order >= 2 && r.i(0, 3) == 0 && !y) {
            surf = std::abs(d[2]) / 2 + r.u(.5, 5);
            if (order > 4) order = 4;
            if (r.b()) { s.setSurfaceDistance(surf + 1); }
            s.setSurfaceDistance(surf);
            gt = true;
            check(throws([&] { s.enableGreenTensor(false); }), "refusals", "surface-without-green-tensor", "disabling the Green tensor was accepted with a surface");
        }
        if (y) gt = true;
        else if (surf == INF && order <= 4) {
            gt = (x && order > 3) || r.b();
            if (gt || r.b()) s.enableGreenTensor(gt);
            else gt = false;
        }
        s.setOrder(order);
        log += str("R=", v3(d), " order=", order, " surface=", surf, " green tensor=", gt);
    }
    void run() {
        const char *sp[] = {"Rb", "Rb", "Cs", "Sr1", "Sr3"};
        std::string a = sp[r.i(0, 4)], b = r.b() ? a : sp[r.i(0, 4)];
        log += a + "-" + b + " ";
        S1 o1 = atom(a), o2 = a == b && r.b() ? o1 : atom(b);
        bool same_atoms = false;
        S2 s(o1, o2, cache());
        if (r.i(0, 3) == 0) {
            S1 o = atom(a);
            s = S2(o, o, cache());
            o1 = o2 = o;
            same_atoms = true, b = a;
        }
        geometry(s);
        if (same_atoms && r.b() && surf == INF) {
            parity_t p = r.b() ? EVEN : ODD;
            s.setConservedParityUnderPermutation(p), log += str(" permutation ", int(p));
            if (order >= 4) order = 3, s.setOrder(3), log += " order=3";
        }
        compare(s, o1, o2, "");
        // further geometries, after the first is in effect
        for (int k = r.i(0, 3); k > 0 && surf == INF && !(d[1] != 0 && !cplx<T>); --k) {
            double x = r.u(2, 9), o = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
            switch (order > 4 ? r.i(0, 1) : r.i(0, 4)) {
            case 0:
                for (auto &c : d) c *= x / o;
                s.setDistance(x);
                break;
            case 1:
                d = {{0, 0, r.b() ? x : -x}}, s.setDistanceVector(d);
                break;
            case 2:
            case 3: {
                double a = r.i(-4, 4) * M_PI / (r.b() ? 4 : 3);
                if (std::abs(std::sin(a)) > 1e-3 && order > 3 && !gt) s.enableGreenTensor(gt = true), log += " green tensor";
                if (r.b()) s.setAngle(a), s.setDistance(o = x);
                else s.setAngle(a);
                d = {{o * std::sin(a), 0, o * std::cos(a)}};
                break;
            }
            case 4:
                if (gt && order <= 4 && r.b() && d[1] == 0 && (order <= 3 || std::abs(d[0]) < 1e-9)) {
                    s.enableGreenTensor(gt = false), log += " no green tensor";
                    if (std::abs(d[0]) < 1e-9) d[0] = 0, s.setDistanceVector(d);
                } else {
                    d = {{r.u(-4, 4), gt && cplx<T> ? r.u(-4, 4) : 0, r.u(2, 4)}};
                    if (order > 3 && !gt) s.enableGreenTensor(gt = true), log += " green tensor";
                    s.setDistanceVector(d);
                }
            }
            log += str(" then R=", v3(d));
            if (r.i(0, 2)) compare(s, o1, o2, str("geometry ", k, " from last").c_str());
        }
        compare(s, o1, o2, "last geometry");
        refusals();
    }
    void compare(S2 &s, S1 &o1, S1 &o2, const char *when) {
        auto h1 = hop(o1), h2 = hop(o2);
        Ops a(h1.st, spin(o1.getSpecies()), std::max(order, 3u)), b(h2.st, spin(o2.getSpecies()), std::max(order, 3u));
        auto got = hop(s), P = proj(s);
        double len = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
        Poly v = coulomb(d, V3{{1, 1, 1}}, order);
        // the image of the second atom in the plane z = surf, the atoms being placed at -R/2 and R/2
        if (surf != INF) v = add(v, coulomb(V3{{d[0], d[1], 2 * surf}}, V3{{1, 1, -1}}, order), -1);
        std::map<std::string, int> i1, i2;
        for (size_t i = 0; i < h1.st.size(); ++i) i1[h1.st[i].str()] = int(i);
        for (size_t i = 0; i < h2.st.size(); ++i) i2[h2.st[i].str()] = int(i);
        Eigen::Index n = Eigen::Index(got.st.size());
        M ref = M::Zero(n, n);
        std::vector<std::array<int, 2>> at;
        for (auto &q : got.st) at.push_back({i1.at(q.getFirstState().str()), i2.at(q.getSecondState().str())});
        for (Eigen::Index i = 0; i < n; ++i)
            for (Eigen::Index j = 0; j < n; ++j) {
                if (at[i][1] == at[j][1]) ref(i, j) += h1.m(at[i][0], at[j][0]);
                if (at[i][0] == at[j][0]) ref(i, j) += h2.m(at[i][1], at[j][1]);
            }
        double big = 0;
        for (auto &m : v) {
            if (std::abs(m.second) < 1e-15) continue;
            const M &x = a.get(m.first[0], m.first[1], m.first[2]), &y = b.get(m.first[3], m.first[4], m.first[5]);
            for (Eigen::Index i = 0; i < n; ++i)
                for (Eigen::Index j = 0; j < n; ++j) {
                    C w = coulombs_constant * m.second * x(at[i][0], at[j][0]) * y(at[i][1], at[j][1]);
                    big = std::max(big, std::abs(w)), ref(i, j) += w;
                }
        }
        Op<StateTwo> want;
        want.st = got.st;
        want.m = P.m * ref * P.m;
        std::string why;
        bool eq = same(got, want, 1e-6 + 1e-6 * big, why);
        const char *kind = surf != INF ? "surface" : gt ? "green" : d[0] != 0 ? "angle" : "multipole";
        check(eq, std::string("interaction: ") + kind, str(kind, "-", cplx<T> ? "complex" : "real", order < 3 ? "-low-order" : ""), log + " " + when + " " + why);
        M h = dense(s.getHamiltonian());
        check((h - h.adjoint()).cwiseAbs().maxCoeff() <= 1e-6, "interaction", "not-hermitian", log);
        (void)len;
    }
    void refusals() {
        S1 q("Rb", cache());
        q.restrictN({50}), q.restrictL({0});
        auto mk = [&] {
            S2 s(q, q, cache());
            s.setDistanceVector({{0, 0, 5}});
            return s;
        };
        {
            S2 s = mk();
            s.setOrder(4), s.setAngle(.3);
            check(throws([&] { s.getHamiltonian(); }), "refusals", "angle-of-high-order", "interaction of order 4 at an angle was computed without the Green tensor");
        }
        {
            S2 s = mk();
            s.setOrder(5), s.enableGreenTensor(true);
            check(throws([&] { s.getHamiltonian(); }), "refusals", "green-tensor-of-high-order", "interaction of order 5 was computed with the Green tensor");
        }
        {
            S2 s = mk();
            s.setSurfaceDistance(9), s.setDistanceVector({{0, cplx<T> ? 1. : 1., 5}});
            check(throws([&] { s.getHamiltonian(); }), "refusals", "out-of-plane", "a surface was used with atoms outside the xz-plane");
        }
        {
            S2 s = mk();
            s.setSurfaceDistance(9);
            auto x = hop(s);
            throws([&] { s.enableGreenTensor(false); });
            bool t = throws([&] {
                std::string why;
                if (!same(x, hop(s), 1e-9, why)) throw 1;
            });
            check(!t, "refusals", "refused-disabling-left-a-trace", "disabling the Green tensor was refused, but changed the system");
        }
        // combination of systems
        int w = r.i(0, 4);
        S2 x(q, q, cache()), y(q, q, cache());
        double e = StateOne("Rb", 50, 0, .5f, .5f).getEnergy(cache());
        x.setConservedParityUnderPermutation(EVEN), y.setConservedParityUnderPermutation(ODD);
        x.restrictEnergy(2 * e - 1, 2 * e + 1), y.restrictEnergy(2 * e - 1, 2 * e + 1);
        x.setDistance(6), y.setDistance(w == 1 ? 7 : 6);
        if (w == 2) y.setOrder(4);
        if (w == 3) y.setSurfaceDistance(9);
        if (w == 4) x.setSurfaceDistance(9), y.setSurfaceDistance(10);
        check(throws([&] { x.add(y); }) == (w != 0), "refusals", w ? "different-pairs-combined" : "equal-pairs-refused", str("difference ", w));
    }
};
void vf_search(uint64_t seed, int n) {
    Quiet q;
    Rng r(seed);
    for (int i = 0; i < n; ++i) {
        { Case<double> h(r); try { h.run(); } catch (std::exception &e) { fail("throws", h.log + " unexpected exception: " + e.what()); } }
        { Case<C> h(r); try { h.run(); } catch (std::exception &e) { fail("throws", h.log + " unexpected exception: " + e.what()); } }
    }
}
void vf_replay(const std::string &, const KV &) {}
