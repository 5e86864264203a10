// S18: C3 and C6 of pairs of atoms are the matrix elements of the dipole-dipole interaction, in first and second order.
#include "sys.hpp"
#include "PerturbativeInteraction.hpp"
using namespace vf;
static double spin(const std::string &sp) { return std::isdigit(sp.back()) ? (sp.back() - '1') / 2. : 0.5; }
struct Atom {
    std::string sp;
    int n, l;
    float j, m;
    StateOne state() const { return StateOne(sp, n, l, j, m); }
};
// Cartesian components of the dipole operator from the spherical components of the library
static std::array<C, 3> dipole(const StateOne &f, const StateOne &i) {
    std::array<C, 3> d{};
    int dl = f.getL() - i.getL();
    double q = f.getM() - i.getM(), dj = f.getJ() - i.getJ();
    if (std::abs(dl) != 1 || std::abs(q) > 1.1 || std::abs(dj) > 1.1) return d;
    double v = cache().getElectricDipole(f, i), h = std::sqrt(0.5);
    int k = std::lround(q);
    // d_{+1} = -(x + iy)/sqrt2, d_{-1} = (x - iy)/sqrt2
    if (k == 0) d[2] = v;
    if (k == 1) d[0] = -h * v, d[1] = C(0, h) * v;
    if (k == -1) d[0] = h * v, d[1] = C(0, h) * v;
    return d;
}
// 1/(4 pi eps0) in GHz um^3 per (Debye-like unit of the library)^2: (V/cm per a.u.)^2 (um per a.u.)^3 / (GHz per a.u.)
static const double kc = 5142206707.0 * 5142206707.0 / 6579683.920757349 * 5.2917721067e-05 * 5.2917721067e-05 * 5.2917721067e-05;
static C coupling(const StateTwo &f, const StateTwo &i, double angle) {
    auto a = dipole(f.getFirstState(), i.getFirstState()), b = dipole(f.getSecondState(), i.getSecondState());
    V3 e{std::sin(angle), 0, std::cos(angle)};
    C dd = 0, ae = 0, be = 0;
    for (int k = 0; k < 3; ++k) dd += a[k] * b[k], ae += a[k] * e[k], be += b[k] * e[k];
    return kc * (dd - 3. * ae * be);
}
// all states of an atom with principal quantum numbers in the range that a dipole connects with both states
static std::vector<StateOne> between(const StateOne &f, const StateOne &i, int dn) {
    std::vector<StateOne> r;
    double s = spin(i.getSpecies());
    for (int n = std::min(f.getN(), i.getN()) - dn; n <= std::max(f.getN(), i.getN()) + dn; ++n)
        for (int l = 0; l < n; ++l) {
            if (std::abs(l - f.getL()) != 1 || std::abs(l - i.getL()) != 1) continue;
            for (double j = std::fabs(l - s); j <= l + s; ++j) {
                if (std::fabs(j - f.getJ()) > 1.1 || std::fabs(j - i.getJ()) > 1.1) continue;
                for (double m = -j; m <= j; ++m)
                    if (std::fabs(m - f.getM()) < 1.1 && std::fabs(m - i.getM()) < 1.1) r.emplace_back(i.getSpecies(), n, l, j, m);
            }
        }
    return r;
}
static bool resonant = false;
static C second(const StateTwo &f, const StateTwo &i, double angle, int dn, const std::vector<StateTwo> &out, double &size) {
    C sum = 0;
    double ef = f.getEnergy(cache()), ei = i.getEnergy(cache());
    auto as = between(f.getFirstState(), i.getFirstState(), dn), bs = between(f.getSecondState(), i.getSecondState(), dn);
    for (auto &a : as)
        for (auto &b : bs) {
            StateTwo v(a, b);
            bool skip = false;
            for (auto &o : out) skip |= o == v;
            if (skip) continue;
            double ev = v.getEnergy(cache());
            if (std::min(std::fabs(ef - ev), std::fabs(ei - ev)) < 1e-5) resonant = true;
            C x = coupling(f, v, angle) * coupling(v, i, angle) * 0.5 * (1 / (ef - ev) + 1 / (ei - ev));
            sum += x, size += std::abs(x);
        }
    return sum;
}
static bool reference = false;
static bool close(C got, C want, double scale) { return std::abs(got - want) <= 1e-9 * scale + 1e-12; }
static Atom atom(Rng &r, const std::string &sp, bool low) {
    Atom a;
    double s = spin(sp);
    a.sp = sp, a.n = low ? r.i(5, 7) : r.i(58, 60), a.l = r.i(0, 3);
    if (low && r.b()) a.n = r.i(4, 7), a.l = a.n - r.i(1, 2); // close to the largest orbital momentum
    double j0 = std::fabs(a.l - s);
    a.j = j0 + r.i(0, int(std::lround(a.l + s - j0))), a.m = -a.j + r.i(0, int(std::lround(2 * a.j)));
    return a;
}
static double angle(Rng &r) { return r.i(0, 2) ? (r.i(0, 3) ? r.u(-3, 3) : M_PI / 2) : 0; }
static std::vector<StateTwo> pairs(Rng &r, std::string &w) {
    const char *sps[] = {"Rb", "Cs", "Sr1", "Sr3"};
    std::string s1 = sps[r.i(0, 3)], s2 = r.b() ? s1 : sps[r.i(0, 3)];
    bool low1 = r.i(0, 4) == 0, low2 = r.i(0, 2) ? low1 : !low1;
    Atom a = atom(r, s1, low1), b = atom(r, s2, low2);
    std::vector<StateTwo> v;
    int k = r.i(1, 4);
    for (int i = 0; i < k; ++i) {
        if (i) {
            Atom c = atom(r, s1, low1), d = atom(r, s2, low2);
            auto two = [&](Atom &x) {
                x.l = x.l >= 2 && (r.b() || x.l + 2 >= x.n) ? x.l - 2 : x.l + 2;
                x.n = std::max(x.n, x.l + 1);
                x.j = std::max<float>(std::fabs(x.l - spin(x.sp)), std::min<float>(x.l + spin(x.sp), x.j));
                x.m = std::max<float>(-x.j, std::min<float>(x.j, x.m + r.i(-2, 2)));
            };
            switch (r.i(0, 4)) {
            case 0: a = c, b = d; break;                                     // anything
            case 1: a.m = std::min<float>(a.j, a.m + 1), b.m = std::max<float>(-b.j, b.m - r.i(0, 1)); break; // degenerate
            case 2: a = c; break;
            default: { // connected by two dipoles: one atom or both
                int h = r.i(0, 2);
                if (h != 1) two(a);
                if (h != 0) two(b);
            }
            }
        }
        StateTwo x(a.state(), b.state());
        bool dup = false;
        for (auto &y : v) dup |= y == x;
        if (!dup) v.push_back(x);
    }
    for (auto &x : v) w += " " + x.str();
    return v;
}
static void all(Rng &r) {
    std::string w;
    auto v = pairs(r, w);
    double th = angle(r);
    int dn = r.i(0, 5) ? r.i(0, 2) : 3;
    w = str("angle ", th, " deltaN ", dn, ":") + w;
    resonant = reference = false;
    size_t n = v.size();
    M c3 = M::Zero(n, n), c6 = c3;
    Eigen::MatrixXd size = Eigen::MatrixXd::Zero(n, n);
    double big = 0;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            if (i != j) c3(i, j) = coupling(v[i], v[j], th);
            c6(i, j) = second(v[i], v[j], th, dn, v, size(i, j));
            big = std::max(big, size(i, j));
        }
    std::vector<double> single(n), ssize(n);
    for (size_t i = 0; i < n; ++i) single[i] = second(v[i], v[i], th, dn, {}, ssize[i]).real();
    reference = true;
    if (resonant) return;
    PerturbativeInteraction p = th == 0 && r.b() ? PerturbativeInteraction(cache()) : PerturbativeInteraction(th, cache());
    auto a = p.getC3(v), b = p.getC6(v, dn), e = p.getEnergy(v);
    bool shape = a.rows() == Eigen::Index(n) && a.cols() == a.rows() && b.rows() == a.rows() && b.cols() == a.rows() && e.rows() == a.rows() && e.cols() == a.rows();
    check(shape, "shape", "shape", w);
    if (!shape) return;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            std::string x = w + str(" [", i, ",", j, "]");
            check(close(a(i, j), c3(i, j), std::abs(c3(i, j)) + 1e-3), "C3", "C3", x + str(" C3 = ", a(i, j), " instead of ", c3(i, j).real()));
            check(close(b(i, j), c6(i, j), size(i, j) + 1e-6 * big), "C6", "C6-matrix", x + str(" C6 = ", b(i, j), " instead of ", c6(i, j).real()));
            check(close(e(i, j), i == j ? v[i].getEnergy(cache()) : 0, 1), "energy", "energy", x);
        }
    for (size_t i = 0; i < n; ++i) {
        double g = p.getC6(v[i], dn);
        check(close(g, single[i], ssize[i]), "C6", "C6-single", w + str(" [", i, "] C6 = ", g, " instead of ", single[i]));
    }
}
// the Hamiltonian of a pair at large distance is made of the same C3
static void systems(Rng &r) {
    const char *sps[] = {"Rb", "Cs", "Sr3"};
    std::string sp = sps[r.i(0, 2)];
    double s = spin(sp), th = angle(r), R = r.u(20, 60);
    auto one = [&] {
        SystemOne<C> a(sp, cache());
        a.restrictN(60, 60), a.restrictL(0, 1), a.restrictJ(s, s + r.i(0, 1));
        return a;
    };
    SystemOne<C> a = one(), b = one();
    SystemTwo<C> t(a, b, cache());
    t.setDistance(R), t.setAngle(th);
    auto st = t.getStates();
    auto h = hop(t);
    std::vector<StateTwo> v;
    for (auto &x : h.st) v.push_back(x);
    PerturbativeInteraction p(th, cache());
    auto c3 = p.getC3(v);
    auto e = p.getEnergy(v);
    std::string w = str(sp, " angle ", th, " R ", R);
    for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = 0; j < v.size(); ++j) {
            double want = c3(i, j) / (R * R * R) + e(i, j);
            if (std::abs(h.m(i, j) - want) <= 1e-9 * (1 + std::abs(e(i, j)))) continue;
            fail("C3-of-system", w + str(" <", v[i].str(), "|H|", v[j].str(), "> = ", h.m(i, j), " instead of ", want));
            return;
        }
    check(true, "C3 of systems", "C3-of-system", w);
}
template <class F> void run(F f, Rng &r, const char *what) {
    reference = false;
    try {
        f(r);
    } catch (std::exception &e) {
        if (reference || std::string(e.what()).find("no defect available") == std::string::npos) fail("throws", std::string(what) + ": unexpected exception: " + e.what());
    }
}
void vf_search(uint64_t seed, int n) {
    Rng r(seed);
    for (int k = 0; k < n; ++k) {
        run(all, r, "perturbation");
        if (k % 10 == 0) run(systems, r, "system");
    }
}
void vf_replay(const std::string &, const KV &) {}
