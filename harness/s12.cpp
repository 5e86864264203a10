// Green tensors against numerical derivatives of the interaction energy of two charges in front of a grounded plane.
#include "common.hpp"
#include "GreenTensor.hpp"
using namespace vf;
using D = long double;
struct P { D c[3]; };
// energy of two unit charges at a and b; with the mirror: and of the image of b
static D energy(const P &a, const P &b, bool mirror) {
    D s = 0, m = 0;
    for (int i = 0; i < 3; ++i) {
        s += (a.c[i] - b.c[i]) * (a.c[i] - b.c[i]);
        D u = a.c[i] - (i == 2 ? -b.c[i] : b.c[i]);
        m += u * u;
    }
    return 1 / std::sqrt(s) - (mirror ? 1 / std::sqrt(m) : 0);
}
// derivative along the listed axes (axis 0..2 of a, 3..5 of b), five-point rule in every direction
static D deriv(P a, P b, bool mirror, const std::vector<int> &ax, size_t k, D h) {
    if (k == ax.size()) return energy(a, b, mirror);
    static const D w[4] = {1.L / 12, -8.L / 12, 8.L / 12, -1.L / 12};
    static const int o[4] = {-2, -1, 1, 2};
    D s = 0;
    for (int i = 0; i < 4; ++i) {
        P p = a, q = b;
        (ax[k] < 3 ? p.c[ax[k]] : q.c[ax[k] - 3]) += o[i] * h;
        s += w[i] * deriv(p, q, mirror, ax, k + 1, h);
    }
    return s / h;
}
static void one(Rng &r_, double x, double y, double z, double d, bool mirror) {
    auto w = str("vector ", x, " ", y, " ", z, mirror ? str(" surface at ", d) : "");
    P a{{x / 2, y / 2, d + z / 2}}, b{{-x / 2, -y / 2, d - z / 2}};
    D r = std::sqrt(D(x) * x + D(y) * y + D(z) * z), h = r * 1e-3L;
    if (mirror) h = std::min(h, std::sqrt(D(x) * x + 4 * D(d) * d) * 1e-3L);
    GreenTensor g(x, y, z);
    if (mirror) {
        // a tensor computed before the surface was added or moved must not survive
        for (int k = r_.i(0, 2); k >= 0; --k) {
            if (r_.i(0, 3)) g.getDDTensor();
            if (r_.i(0, 3)) g.getDQTensor();
            if (r_.i(0, 3)) g.getQDTensor();
            if (k) g.addSurface(d * r_.u(1, 2)), w += " moved";
        }
        g.addSurface(d);
    }
    D s3 = 1 / (r * r * r), s4 = s3 / r;
    for (int rep = 0; rep < 2; ++rep)
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) {
                D e = -deriv(a, b, mirror, {i, 3 + j}, 0, h);
                check(std::abs(e - g.getDDTensor()(i, j)) < 1e-6 * s3, "dipole-dipole", mirror ? "dd-surface" : "dd",
                      str(w, " ", i, j, ": ", g.getDDTensor()(i, j), " expected ", double(e)));
                for (int k = 0; k < 3 && !rep; ++k) {
                    e = -deriv(a, b, mirror, {i, 3 + j, 3 + k}, 0, h);
                    check(std::abs(e - g.getDQTensor()(i, j, k)) < 1e-6 * s4, "dipole-quadrupole", mirror ? "dq-surface" : "dq",
                          str(w, " ", i, j, k, ": ", g.getDQTensor()(i, j, k), " expected ", double(e)));
                    e = -deriv(a, b, mirror, {i, j, 3 + k}, 0, h);
                    check(std::abs(e - g.getQDTensor()(i, j, k)) < 1e-6 * s4, "quadrupole-dipole", mirror ? "qd-surface" : "qd",
                          str(w, " ", i, j, k, ": ", g.getQDTensor()(i, j, k), " expected ", double(e)));
                }
            }
}
void vf_search(uint64_t seed, int n) {
    Rng r(seed);
    for (int i = 0; i < n; ++i) {
        double s = std::pow(10., r.u(-1, 2)), x = s * r.u(-1, 1), y = s * r.u(-1, 1), z = s * r.u(-1, 1);
        if (i % 5 == 0) x = 0;
        if (i % 5 == 1) z = 0, x += s;
        if (i % 5 == 2) y = 0;
        if (std::abs(x) + std::abs(y) + std::abs(z) < s / 10) continue;
        one(r, x, y, z, 0, false);
        if (std::abs(x) + std::abs(z) < s / 10) continue;
        double d = std::abs(z) / 2 + s * r.u(0.05, 2);
        guard("surface", str("vector ", x, " 0 ", z, " surface at ", d), [&] { one(r, x, 0, z, d, true); });
        // refused: out of plane, and an atom inside the plate
        double in = std::abs(z) / 2 * r.u(0, .999);
        auto refused = [&](double yy, double dd) { return throws([&] { GreenTensor g(x, yy, z); g.addSurface(dd); }); };
        check(refused(s / 3, d), "refusals", "out-of-plane", str("vector ", x, " ", s / 3, " ", z));
        if (z != 0) check(refused(0, in), "refusals", "inside-plate", str("vector ", x, " 0 ", z, " surface at ", in));
        check(refused(0, -d), "refusals", "inside-plate", str("vector ", x, " 0 ", z, " surface at ", -d));
    }
}
void vf_replay(const std::string &, const KV &) { vf_search(1, 20); }
