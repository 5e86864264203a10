// Cartesian operators of one fine-structure atom, built from the recursion relations of the spherical harmonics.
#pragma once
#include "sys.hpp"
namespace vf {
template <class T> constexpr bool cplx = std::is_same<T, C>::value;
static const double INF = std::numeric_limits<double>::max();
// operators on |l m>, l = 0..L, without Wigner symbols: from the recursion relations of the spherical harmonics
struct Orb {
    int L;
    M x, y, z, lx, ly, lz;
    int at(int l, int m) const { return l * l + l + m; }
    explicit Orb(int L) : L(L) {
        int n = (L + 1) * (L + 1);
        M p = M::Zero(n, n), lp = M::Zero(n, n);
        x = y = z = lx = ly = lz = M::Zero(n, n);
        for (int l = 0; l <= L; ++l)
            for (int m = -l; m <= l; ++m) {
                double d1 = (2. * l + 1) * (2. * l + 3), d0 = (2. * l - 1) * (2. * l + 1);
                if (l < L) {
                    double a = std::sqrt(((l + 1.) * (l + 1.) - m * m) / d1);
                    z(at(l + 1, m), at(l, m)) = z(at(l, m), at(l + 1, m)) = a;
                    p(at(l + 1, m + 1), at(l, m)) = -std::sqrt((l + m + 1.) * (l + m + 2.) / d1);
                }
                if (l > 0 && std::abs(m + 1) <= l - 1) p(at(l - 1, m + 1), at(l, m)) = std::sqrt((l - m) * (l - m - 1.) / d0);
                if (m < l) lp(at(l, m + 1), at(l, m)) = std::sqrt((l - m) * (l + m + 1.));
                lz(at(l, m), at(l, m)) = m;
            }
        // p = (x + i y) / r
        x = (p + p.adjoint()) / 2., y = (p - p.adjoint()) / C(0, 2);
        lx = (lp + lp.adjoint()) / 2., ly = (lp - lp.adjoint()) / C(0, 2);
    }
};
// an angular operator (with spin) between fine-structure states
struct Atom {
    double s;
    const Orb &o;
    M sx, sy, sz;
    int ns;
    Atom(double s, const Orb &o) : s(s), o(o), ns(int(2 * s + 1.5)) {
        M p = M::Zero(ns, ns);
        sz = M::Zero(ns, ns);
        for (int i = 0; i < ns; ++i) {
            double m = i - s;
            sz(i, i) = m;
            if (i + 1 < ns) p(i + 1, i) = std::sqrt((s - m) * (s + m + 1));
        }
        sx = (p + p.adjoint()) / 2., sy = (p - p.adjoint()) / C(0, 2);
    }
    // coefficients of |l j m> on |l ml>|s ms>, by the lowering operator and orthogonality is replaced by the 3j formula of Racah
    Eigen::VectorXcd vec(int l, double j, double m) const {
        Eigen::VectorXcd v = Eigen::VectorXcd::Zero(o.x.rows() * ns);
        for (int i = 0; i < ns; ++i) {
            double ms = i - s, ml = m - ms;
            if (std::abs(ml) > l + .1) continue;
            v(o.at(l, int(std::lround(ml))) * ns + i) = sgn(l - s + m) * std::sqrt(2 * j + 1) * WignerSymbols::wigner3j(l, s, j, ml, ms, -m);
        }
        return v;
    }
    M orb(const M &a) const { return kron(a, M::Identity(ns, ns)); }
    M spin(const M &a) const { return kron(M::Identity(o.x.rows(), o.x.rows()), a); }
    static M kron(const M &a, const M &b) {
        M r(a.rows() * b.rows(), a.cols() * b.cols());
        for (Eigen::Index i = 0; i < a.rows(); ++i)
            for (Eigen::Index j = 0; j < a.cols(); ++j) r.block(i * b.rows(), j * b.cols(), b.rows(), b.cols()) = a(i, j) * b;
        return r;
    }
};
} // namespace vf
