// Wigner rotation matrices against Wigner's formula, unitarity, composition and the special angles.
#include "common.hpp"
#include "WignerD.hpp"
using namespace vf;
using C = std::complex<double>;
static long double fac(int n) { return n < 2 ? 1.L : n * fac(n - 1); }
static double formula(int J, int M, int N, long double beta) {
    int a = (J + M) / 2, b = (J - M) / 2, p = (J + N) / 2, q = (J - N) / 2;
    long double c = std::cos(beta / 2), s = std::sin(beta / 2), t = 0;
    for (int k = 0; k <= J; ++k)
        if (p - k >= 0 && a - p + k >= 0 && b - k >= 0)
            t += ((a - p + k) % 2 ? -1 : 1) * std::pow(c, J + p - a - 2 * k) * std::pow(s, a - p + 2 * k) /
                (fac(p - k) * fac(k) * fac(a - p + k) * fac(b - k));
    return t * std::sqrt(fac(a) * fac(b) * fac(p) * fac(q));
}
static double tol(int J) { return 1e-13 * std::pow(2., J / 2.) + 1e-12; }
void vf_search(uint64_t seed, int n) {
    Rng rng(seed);
    WignerD W;
    const double pi = std::acos(-1.);
    std::vector<double> special{0, pi / 2, pi / 2 + 1e-15, pi / 2 - 2e-15, pi, -pi / 2, 2 * pi, -pi, 1e-9, 4 * pi, 3 * pi / 2};
    for (int i = 0; i < n; ++i) {
        int J = rng.i(0, 24), M = J - 2 * rng.i(0, J), N = J - 2 * rng.i(0, J);
        float j = J / 2.f, m = M / 2.f, mp = N / 2.f;
        double b = rng.i(0, 2) ? rng.u(-7, 7) : rng.pick(special), al = rng.u(-7, 7), ga = rng.u(-7, 7);
        auto w = str("j=", j, " m=", m, " m'=", mp, " beta=", b);
        guard("wigner", w, [&] {
            double d = W(j, m, mp, b), f = formula(J, M, N, b);
            check(std::abs(d - f) <= tol(J), "formula", "formula", str(w, ": ", d, " expected ", f));
            C D = W(j, m, mp, al, b, ga);
            check(std::abs(D - std::polar(1., -double(m) * al) * f * std::polar(1., -double(mp) * ga)) <= tol(J), "phases", "phases",
                  str(w, " alpha=", al, " gamma=", ga, ": ", D));
            check(std::abs(W(j, mp, m, -b) - d) <= 2 * tol(J), "inverse rotation", "inverse", w);
            check(std::abs(W(j, -m, -mp, b) - (((M - N) / 2) % 2 ? -1. : 1.) * d) <= 2 * tol(J), "reversal", "reversal", w);
            C s = 0;
            double c = 0, b2 = rng.u(-7, 7), a2 = rng.u(-7, 7), g2 = rng.u(-7, 7);
            for (int K = -J; K <= J; K += 2) {
                s += W(j, m, K / 2.f, al, b, ga) * std::conj(W(j, mp, K / 2.f, al, b, ga));
                c += W(j, m, K / 2.f, b) * W(j, K / 2.f, mp, b2);
            }
            check(std::abs(s - double(M == N)) <= 4 * tol(J), "unitarity", "unitarity", str(w, ": ", s));
            check(std::abs(c - W(j, m, mp, b + b2)) <= 4 * tol(J), "composition", "composition", str(w, " and ", b2));
        });
    }

}
void vf_replay(const std::string &, const KV &) { vf_search(1, 300); }
