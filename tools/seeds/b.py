SYS = ["MatrixElementCache.cpp", "State.cpp", "QuantumDefect.cpp", "Wavefunction.cpp", "WignerD.cpp", "GreenTensor.cpp", "SystemBase.cpp", "SystemOne.cpp", "SystemTwo.cpp"]
HEAD = r'''#include "MatrixElementCache.hpp"
#include "SystemOne.hpp"
#include "SystemTwo.hpp"
#include <Eigen/Eigenvalues>
#include <cmath>
#include <cstdio>
#include <set>
using S1 = SystemOne<double>;
using S2 = SystemTwo<double>;
static MatrixElementCache &cache() {
    static MatrixElementCache c;
    return c;
}
template <class T>
static Eigen::MatrixXd dense(SystemBase<double, T> &s) {
    Eigen::MatrixXd b = s.getBasisvectors(), h = s.getHamiltonian();
    return b * h * b.transpose();
}
static double diff(const Eigen::MatrixXd &a, const Eigen::MatrixXd &b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return 1e9;
    double d = (a - b).cwiseAbs().maxCoeff();
    std::printf("%g of %g\n", d, b.cwiseAbs().maxCoeff());
    return d / b.cwiseAbs().maxCoeff();
}
static S1 atom(int n = 50) {
    S1 a("Rb", cache());
    a.restrictN(n, n + 1), a.restrictL(0, 1);
    return a;
}
'''

mk("s16-stale-angle", "S16",
   [("SystemTwo.cpp", "    angle_terms.clear();\n", "")],
   HEAD + r'''
static double energy(S2 &s) {
    double e = 0;
    Eigen::MatrixXd h = dense(s), h0 = h;
    h0 = h - Eigen::MatrixXd(h.diagonal().asDiagonal());
    return h0.squaredNorm();
}
int main() {
    S1 a = atom();
    S2 s(a, a, cache()), t(a, a, cache());
    s.setDistance(5), t.setDistance(5);
    s.setAngle(.7), energy(s);
    s.setAngle(1e-13), t.setAngle(1e-13);
    double x = energy(s), y = energy(t);
    std::printf("%g %g\n", x, y);
    return std::fabs(x - y) > 1e-6 * y;
}
''', SYS, needs="a calculation at a general angle followed by one at an angle that is tiny but not zero, where some terms vanish",
   breaks="terms of the former direction that vanish in the new one stay in the Hamiltonian")

mk("s13-unperturbed-not-selected", "S13",
   [("SystemBase.cpp", """        hamiltonian_unperturbed_cache =
            transformator.adjoint() * hamiltonian_unperturbed_cache * transformator;
""", """        if (hamiltonian_unperturbed_cache.rows() != hamiltonian.rows()) {
            hamiltonian_unperturbed_cache = hamiltonian;
        }
""")],
   HEAD + r'''
int main() {
    S1 a = atom(), b = atom();
    a.setEfield({{0, 0, .5}});
    a.getHamiltonian();
    a.restrictM(.5, .5), b.restrictM(.5, .5);
    a.getHamiltonian();
    a.setEfield({{0, 0, 0}});
    return diff(dense(a), dense(b)) > 1e-9;
}
''', SYS, needs="restricting the basis while a field is in effect, then changing the field",
   breaks="the unperturbed Hamiltonian that is restored contains the field that was set when the basis was restricted")

mk("s15-tilted-diamagnetism", "S15",
   [("SystemOne.cpp", "diamagnetism_terms[{{2, +1}}] = bfield_spherical[+0] * bfield_spherical[-1];", "diamagnetism_terms[{{2, +1}}] = bfield_spherical[+0] * bfield_spherical[+1];"),
    ("SystemOne.cpp", "diamagnetism_terms[{{2, -1}}] = bfield_spherical[+0] * bfield_spherical[+1];", "diamagnetism_terms[{{2, -1}}] = bfield_spherical[+0] * bfield_spherical[-1];")],
   HEAD + r'''
static std::vector<double> spectrum(double angle) {
    S1 a = atom();
    a.setBfield({{3000 * std::sin(angle), 0, 3000 * std::cos(angle)}});
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> e{Eigen::MatrixXd(a.getHamiltonian())};
    return {e.eigenvalues().data(), e.eigenvalues().data() + e.eigenvalues().size()};
}
int main() {
    // the spectrum does not depend on the direction of the field
    double worst = 0;
    std::vector<double> z = spectrum(0);
    for (double t : {M_PI / 2, .5, 2.}) {
        std::vector<double> v = spectrum(t);
        for (size_t i = 0; i < v.size(); ++i) worst = std::max(worst, std::fabs(v[i] - z[i]));
    }
    std::printf("%g\n", worst);
    return worst > 1e-5;
}
''', SYS, needs="a magnetic field that is neither along nor perpendicular to the z axis, with diamagnetism", breaks="the sign of the q=+-1 terms of the diamagnetic operator")

mk("s17-odd-pairs", "S17",
   [("SystemTwo.cpp", "(sym_inversion_local == ODD && col_1 < col_2)", "(sym_inversion_local == ODD && col_1 <= col_2)")],
   HEAD + r'''
int main() {
    S1 a = atom(50);
    S2 s(a, a, cache()), g(a, a, cache()), u(a, a, cache());
    g.setConservedParityUnderInversion(EVEN);
    u.setConservedParityUnderInversion(ODD);
    long n = s.getNumBasisvectors(), k = g.getNumBasisvectors(), l = u.getNumBasisvectors();
    std::printf("%ld = %ld + %ld\n", n, k, l);
    return n != k + l;
}
''', SYS, needs="ungerade symmetry", breaks="pairs of twice the same vector are missing in the ungerade sector: gerade and ungerade do not make up the full space")

mk("s14-conjugated-overlap", "S14",
   [("SystemBase.cpp", "        tmp.insert(idx_col, idx_row) = utils::conjugate(value);\n    }\n    tmp.makeCompressed();\n\n    hamiltonian += basisvectors.adjoint() * tmp * basisvectors;\n}\n\ntemplate <class Scalar, class State>\nSystemBase<Scalar, State>::SystemBase()",
     "        tmp.insert(idx_col, idx_row) = value;\n    }\n    tmp.makeCompressed();\n\n    hamiltonian += basisvectors.adjoint() * tmp * basisvectors;\n}\n\ntemplate <class Scalar, class State>\nSystemBase<Scalar, State>::SystemBase()")],
   HEAD + r'''
#include <complex>
using C = std::complex<double>;
int main() {
    SystemOne<C> a("Rb", cache());
    a.restrictN(50, 50), a.restrictL(0, 1);
    StateOne x("Rb", 50, 0, .5, .5), y("Rb", 50, 1, .5, .5);
    a.addHamiltonianEntry(x, y, C(1, 2));
    C p = a.getHamiltonianEntry(x, y), q = a.getHamiltonianEntry(y, x);
    std::printf("%g%+gi %g%+gi\n", p.real(), p.imag(), q.real(), q.imag());
    return std::abs(p - C(1, 2)) > 1e-9 || std::abs(q - C(1, -2)) > 1e-9;
}
''', SYS, needs="adding an entry with an imaginary part", breaks="the Hamiltonian is not Hermitian any more")

mk("s18-one-denominator", "S18",
   [("PerturbativeInteraction.cpp", "                                             1 / energydiff_col); // getMultipole", "                                             1 / energydiff_row); // getMultipole")],
   r'''#include "PerturbativeInteraction.hpp"
#include <cmath>
#include <cstdio>
int main() {
    MatrixElementCache c;
    PerturbativeInteraction p(0., c);
    StateTwo s({{"Rb", "Rb"}}, {{40, 40}}, {{0, 0}}, {{.5, .5}}, {{.5, .5}}), t({{"Rb", "Rb"}}, {{40, 41}}, {{0, 0}}, {{.5, .5}}, {{.5, .5}});
    double x = p.getC6(std::vector<StateTwo>{s, t}, 3)(0, 1), y = p.getC6(std::vector<StateTwo>{t, s}, 3)(0, 1);
    std::printf("%g %g\n", x, y);
    return std::fabs(x - y) > 1e-9 * std::fabs(x);
}
''', ["MatrixElementCache.cpp", "State.cpp", "QuantumDefect.cpp", "Wavefunction.cpp", "PerturbativeInteraction.cpp"],
   needs="the C6 matrix of states of different energies", breaks="off-diagonal elements take the energy of one of the states only, so that the matrix depends on the order of the list")

mk("s19-stale-bytes", "S19",
   [("Hamiltonianmatrix.cpp", "Hamiltonianmatrix<Scalar>::operator-=(const Hamiltonianmatrix<Scalar> &rhs) {\n    bytes.clear();", "Hamiltonianmatrix<Scalar>::operator-=(const Hamiltonianmatrix<Scalar> &rhs) {\n    if (entries_.nonZeros() < rhs.entries_.nonZeros()) {\n        bytes.clear();\n    }")],
   r'''#include "Hamiltonianmatrix.hpp"
#include <cstdio>
int main() {
    Hamiltonianmatrix<double> a(3, 3), b(3, 3);
    for (int i = 0; i < 3; ++i) a.addBasis(i, i, 1), a.addEntries(i, i, i + 1), b.addBasis(i, i, 1), b.addEntries(i, i, .5);
    a.compress(3, 3), b.compress(3, 3);
    a.hashEntries();
    a -= b;
    bytes_t d = a.serialize();
    Hamiltonianmatrix<double> c;
    c.deserialize(d);
    double e = (Eigen::MatrixXd(c.entries()) - Eigen::MatrixXd(a.entries())).norm();
    std::printf("%g\n", e);
    return e != 0;
}
''', ["Hamiltonianmatrix.cpp", "Basisnames.cpp", "StateOld.cpp", "QuantumDefect.cpp"],
   needs="a matrix whose hash or bytes were asked for, then a subtraction that adds no entries, then serialization",
   breaks="the serialized bytes are those of the matrix before the subtraction")

mk("s12-surface-after-tensor", "S12",
   [("GreenTensor.cpp", "    zA = d - z / 2.;\n    zB = d + z / 2.;\n", "    bool moved = zA != d - z / 2. && zA != std::numeric_limits<double>::max();\n    zA = d - z / 2.;\n    zB = d + z / 2.;\n"),
    ("GreenTensor.cpp", "    dq_tensor_calculated = false;\n    qd_tensor_calculated = false;\n}", "    dq_tensor_calculated = false;\n    qd_tensor_calculated = qd_tensor_calculated && moved;\n}")],
   r'''#include "GreenTensor.hpp"
#include <cmath>
#include <cstdio>
int main() {
    GreenTensor a(1, 0, 2), b(1, 0, 2);
    a.addSurface(5), a.getDDTensor(), a.getDQTensor(), a.getQDTensor();
    a.addSurface(3), b.addSurface(3);
    double e = 0;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            for (int k = 0; k < 3; ++k) e += std::fabs(a.getQDTensor()(i, j, k) - b.getQDTensor()(i, j, k)) + std::fabs(a.getDQTensor()(i, j, k) - b.getDQTensor()(i, j, k));
    std::printf("%g\n", e);
    return e > 1e-12;
}
''', ["GreenTensor.cpp"], needs="moving a surface after the quadrupole-dipole tensor was asked for", breaks="the tensor of the former surface is returned")

mk("s11-half-pi", "S11",
   [("WignerD.cpp", "    if (std::abs(beta - M_PI / 2) < tolerance) {", "    if (std::abs(std::abs(beta) - M_PI / 2) < tolerance) {")],
   r'''#include "WignerD.hpp"
#include <cmath>
#include <cstdio>
int main() {
    WignerD w;
    double e = 0;
    for (float m : {-1.f, 0.f, 1.f})
        for (float k : {-1.f, 0.f, 1.f}) e += std::fabs(w(1, m, k, -M_PI / 2) - w(1, k, m, M_PI / 2));
    std::printf("%g\n", e);
    return e > 1e-9;
}
''', ["WignerD.cpp"], needs="a rotation by exactly minus a right angle", breaks="the matrix of the opposite rotation is returned")

mk("s22-lost-diamagnetism", "S22",
   [("SystemOne.hpp", "        ar &CEREAL_NVP(efield_spherical) & CEREAL_NVP(bfield_spherical) &\n            CEREAL_NVP(diamagnetism_terms);", "        ar &CEREAL_NVP(efield_spherical) & CEREAL_NVP(bfield_spherical);")],
   '#include "MatrixElementCache.hpp"\n#include <cereal/archives/binary.hpp>\n#include <cereal/archives/json.hpp>\n#include <sstream>\n' + HEAD + r'''
int main() {
    S1 a = atom(), b = atom();
    a.setBfield({{0, 0, 3000}});
    a.getHamiltonian();
    std::stringstream ss;
    {
        cereal::BinaryOutputArchive out(ss);
        out << a;
    }
    {
        cereal::BinaryInputArchive in(ss);
        in >> b;
    }
    a.setEfield({{0, 0, 1}}), b.setEfield({{0, 0, 1}});
    return diff(dense(b), dense(a)) > 1e-12;
}
''', SYS, needs="a system with a magnetic field that is saved, loaded, and then put into an electric field", breaks="the diamagnetic terms are lost in the loaded system")
