// Radial wavefunctions: recurrence, norm, potential, closed forms for hydrogen, symmetry, grid search.
#include "common.hpp"
#include "QuantumDefect.hpp"
#include "Wavefunction.hpp"
#include <fstream>
#include <unistd.h>
using namespace vf;
static std::string hydrogen() {
    static std::string path;
    if (!path.empty()) return path;
    path = str("hydrogen", getpid(), ".sql");
    std::ofstream f(path);
    f << "BEGIN TRANSACTION;\nDROP TABLE IF EXISTS `model_potential`;\nCREATE TABLE `model_potential` ( `element` text,`L` int,`ac` real,`Z` int,`a1` real,`a2` real,`a3` real,`a4` real,`rc` real, primary key (`element`, `L`));\n";
    f << "DROP TABLE IF EXISTS `rydberg_ritz`;\nCREATE TABLE `rydberg_ritz` ( `element` text,`L` int,`J` real,`d0` real,`d2` real,`d4` real,`d6` real,`d8` real,`Ry` real, primary key (`element`, `L`, `J`));\n";
    for (int l = 0; l <= 6; ++l) {
        f << "INSERT INTO `model_potential` VALUES('H'," << l << ",'0',1,'0','0','0','0','1');\n";
        for (int b = 0; b < 2; ++b)
            if (l + b > 0) f << "INSERT INTO `rydberg_ritz` VALUES('H'," << l << ",'" << l - .5 + b << "','0','0','0','0','0','109737.31568525');\n";
    }
    f << "COMMIT;\n";
    return path;
}
static double potential(const QuantumDefect &q, double r) {
    double z = 1 + (q.Z - 1) * std::exp(-q.a1 * r) - r * (q.a3 + q.a4 * r) * std::exp(-q.a2 * r);
    double v = -z / r - q.ac / (2 * std::pow(r, 4)) * (1 - std::exp(-std::pow(r / q.rc, 6)));
    char c = q.species.back();
    double s = c >= '0' && c <= '9' ? (c - '1') / 2. : .5;
    if (q.l < 4) v += std::pow(7.2973525664e-3, 2) / (4 * r * r * r) * (q.j * (q.j + 1) - q.l * (q.l + 1.) - s * (s + 1));
    return v;
}
static std::string name(const QuantumDefect &q) { return str(q.species, " ", q.n, " l=", q.l, " j=", q.j); }
static void wave(const QuantumDefect &q) {
    auto w = name(q);
    for (double r : {0.3, 1., 2.5, 10., 200., 5000.})
        check(near(model_potential::V(q, r), potential(q, r), 1e-12), "potential", "potential", str(w, " at r=", r));
    auto G = [&](double x) {
        double r = x * x;
        return (2. * q.l + .5) * (2. * q.l + 1.5) / r + 8 * r * (potential(q, r) - q.energy / 6579683.920757349);
    };
    auto y = Numerov(q).integrate();
    int n = y.rows();
    double t = double(q.n) * q.n - q.n * std::sqrt(double(q.n) * q.n - (q.l - 1.) * (q.l - 1.));
    double x0 = t < 2.08 ? 1 : std::floor(std::sqrt(t)), x1 = std::sqrt(2. * q.n * (q.n + 15));
    check(std::abs(n - (x1 - x0) / 0.01) <= 1 && near(y(0, 0), x0) && near(y(n - 1, 0), x0 + (n - 1) * .01), "grid", "grid", w);
    double norm = 0, worst = 0;
    for (int i = 0; i < n; ++i) norm += 2 * y(i, 1) * y(i, 1) * y(i, 0) * y(i, 0) * .01;
    check(near(norm, 1, 1e-9), "normalisation", "norm", str(w, " norm ", norm));
    const double h = .01 * .01;
    double big = y.col(1).cwiseAbs().maxCoeff();
    for (int i = n - 3; i >= 0; i -= 7) {
        double a = (2 + 5. / 6 * h * G(y(i + 1, 0))) * y(i + 1, 1), b = (1 - h / 12 * G(y(i + 2, 0))) * y(i + 2, 1);
        double c = 1 - h / 12 * G(y(i, 0));
        worst = std::max(worst, std::abs(c * y(i, 1) - a + b) / (std::abs(y(i, 1)) + std::abs(a) + std::abs(b) + 1e-9 * big));
    }
    check(worst < 1e-9, "recurrence", "numerov", str(w, " residual ", worst));
    check(((q.n - q.l) % 2 == 0) == (y(n - 2, 1) < 0) || y(n - 2, 1) == 0, "sign", "sign", w);
    check(y(n - 1, 1) == 0, "boundary", "boundary", w);
    // the Coulomb function has the sign of the number of nodes far outside and obeys the same differential equation
    auto c = Whittaker(q).integrate();
    int m = c.rows();
    check(near(c(0, 0), 1) && std::abs(m - (x1 - 1) / .01) <= 1, "grid", "grid-whittaker", w);
    bool ok = true;
    for (int i = m - 40; i > m - 60 && i > 0; --i) ok &= ((q.n - q.l) % 2 == 0) == (c(i, 1) < 0) || c(i, 1) == 0;
    check(ok, "sign", "sign-whittaker", w);
}
static void pair(const QuantumDefect &a, const QuantumDefect &b, int p) {
    auto w = str(name(a), " and ", name(b), " power ", p);
    double x = IntegrateRadialElement<Numerov>(a, p, b), y = IntegrateRadialElement<Numerov>(b, p, a);
    double scale = std::sqrt(std::abs(IntegrateRadialElement<Numerov>(a, p, a) * IntegrateRadialElement<Numerov>(b, p, b)));
    check(std::abs(x - y) <= 1e-9 * scale, "symmetry", "symmetry", str(w, ": ", x, " and ", y));
    // an independent sum over the common grid points
    auto u = Numerov(a).integrate(), v = Numerov(b).integrate();
    double sum = 0;
    int s = static_cast<int>(std::lround((v(0, 0) - u(0, 0)) / .01));
    for (int i = 0; i < u.rows(); ++i)
        if (i - s >= 0 && i - s < v.rows()) sum += 2 * u(i, 1) * v(i - s, 1) * std::pow(u(i, 0), 2 * p + 2) * .01;
    check(std::abs(sum - x) <= 1e-6 * scale + 1e-300, "sum", "overlap-sum", str(w, ": ", x, " expected ", sum));
    double k = IntegrateRadialElement<Whittaker>(a, p, b), l = IntegrateRadialElement<Whittaker>(b, p, a);
    check(std::abs(k - l) <= 1e-9 * (std::abs(k) + std::abs(l)) + 1e-12 * scale, "symmetry", "symmetry-whittaker", str(w, ": ", k, " and ", l));
}
void vf_search(uint64_t seed, int n) {
    Rng r(seed);
    // hydrogen: closed forms
    for (int i = 0; i < n; ++i) {
        int N = r.i(18, 60), l = r.i(0, 5);
        double j = l + .5;
        QuantumDefect q("H", N, l, j, hydrogen());
        wave(q);
        double nn = double(N) * N, w1 = (3 * nn - l * (l + 1)) / 2, w2 = nn / 2 * (5 * nn + 1 - 3 * l * (l + 1));
        double a0 = IntegrateRadialElement<Numerov>(q, 0, q), a1 = IntegrateRadialElement<Numerov>(q, 1, q), a2 = IntegrateRadialElement<Numerov>(q, 2, q);
        check(near(a0, 1, 1e-3) && near(a1, w1, 2e-3) && near(a2, w2, 3e-3), "hydrogen", "hydrogen-numerov", str(name(q), " <1>,<r>,<r2> = ", a0, " ", a1, " ", a2, " expected 1 ", w1, " ", w2));
        double b0 = IntegrateRadialElement<Whittaker>(q, 0, q), b1 = IntegrateRadialElement<Whittaker>(q, 1, q), b2 = IntegrateRadialElement<Whittaker>(q, 2, q);
        check(near(b0, 1, 1e-2) && near(b1, w1, 1e-2) && near(b2, w2, 1e-2), "hydrogen", "hydrogen-whittaker", str(name(q), " <1>,<r>,<r2> = ", b0, " ", b1, " ", b2, " expected 1 ", w1, " ", w2));
        if (l > 0) {
            QuantumDefect m("H", N, l - 1, l - .5, hydrogen());
            double d = 1.5 * N * std::sqrt(nn - double(l) * l);
            double c = IntegrateRadialElement<Numerov>(q, 1, m), e = IntegrateRadialElement<Whittaker>(q, 1, m);
            check(near(std::abs(c), d, 3e-3) && near(std::abs(e), d, 1e-2), "hydrogen", "hydrogen-transition", str(name(q), " and ", name(m), ": ", c, " ", e, " expected +-", d));
            check((c < 0) == (e < 0), "hydrogen", "hydrogen-sign", name(q));
        }
        int N2 = r.i(18, 60), l2 = r.i(0, 5);
        pair(q, QuantumDefect("H", N2, l2, l2 + .5, hydrogen()), r.i(0, 3));
    }
    for (int i = 0; i < n; ++i) {
        auto lev = [&] {
            std::string sp = r.pick<std::string>({"Rb", "Cs", "Li", "Na", "K", "Sr1", "Sr3"});
            int l = r.i(0, 6), N = r.i(20, 90);
            double s = sp == "Sr1" ? 0 : sp == "Sr3" ? 1 : .5;
            std::vector<double> js;
            for (double j = std::fabs(l - s); j <= l + s; j += 1) js.push_back(j);
            return QuantumDefect(sp, N, l, r.pick(js));
        };
        try {
            auto a = lev(), b = lev();
            wave(a);
            pair(a, b, r.i(0, 3));
        } catch (std::runtime_error &e) {
            if (std::string(e.what()).find("Search") != std::string::npos) fail("search-failed", str("round ", i));
        } catch (std::exception &) {} // level not in the database
    }
    // every pair of grids that low-lying and high-lying levels can have
    for (int a = 1; a <= 60; ++a)
        for (int b = 1; b <= 60; ++b) {
            int na = 300 + 37 * (a % 11) + r.i(0, 9), nb = na + (a - b) * 100 + r.i(-250, 250);
            if (nb < 2) continue;
            Eigen::MatrixXd x(na, 2), y(nb, 2);
            for (int i = 0; i < na; ++i) x(i, 0) = a + i * .01;
            for (int i = 0; i < nb; ++i) y(i, 0) = b + i * .01;
            double lo = std::max(x(0, 0), y(0, 0)), hi = std::min(x(na - 1, 0), y(nb - 1, 0));
            if (lo > hi) continue;
            bool ok = true;
            try {
                for (double v : {lo, hi}) {
                    int i = findidx(x.col(0), v), j = findidx(y.col(0), v);
                    ok &= i >= 0 && i < na && j >= 0 && j < nb && std::abs(x(i, 0) - v) < 1e-9 && std::abs(y(j, 0) - v) < 1e-9;
                }
            } catch (std::exception &) { ok = false; }
            check(ok, "search", "search", str("grids from ", a, " (", na, " points) and ", b, " (", nb, " points)"));
        }
    unlink(hydrogen().c_str());
}
void vf_replay(const std::string &, const KV &) { vf_search(1, 20); }
