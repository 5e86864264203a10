// S19: Hamiltonian matrices of the legacy classes: operations against dense matrices, serialization.
#include "common.hpp"
#include "Hamiltonianmatrix.hpp"
#include <Eigen/Dense>
#include <unistd.h>
using namespace vf;
using C = std::complex<double>;
using M = Eigen::MatrixXcd;
template <class T> M dense(const Eigen::SparseMatrix<T> &m) {
    M r = M::Zero(m.rows(), m.cols());
    for (int k = 0; k < m.outerSize(); ++k)
        for (typename Eigen::SparseMatrix<T>::InnerIterator it(m, k); it; ++it) r(it.row(), it.col()) += C(it.value());
    return r;
}
template <class T> T val(Rng &r) { return r.u(-2, 2); }
template <> C val<C>(Rng &r) { return C(r.u(-2, 2), r.u(-2, 2)); }
template <class T> struct Ref {
    Hamiltonianmatrix<T> h;
    M e, b;
};
template <class T> Ref<T> any(Rng &r, int n, int k, int fill) {
    Ref<T> x;
    x.e = M::Zero(k, k), x.b = M::Zero(n, k);
    Hamiltonianmatrix<T> h(size_t(0), size_t(0));
    for (int i = 0; i < k; ++i)
        for (int j = 0; j <= i; ++j)
            if (r.i(0, 9) < fill) {
                T v = i == j ? T(std::real(val<T>(r))) : val<T>(r);
                h.addEntries(i, j, v), x.e(i, j) += v;
                if (i != j) h.addEntries(j, i, utils::conjugate(v)), x.e(j, i) += std::conj(C(v));
            }
    // some entries are made of several contributions
    for (int j = 0; j < k; ++j)
        for (int i = 0; i < n; ++i)
            if (r.i(0, 9) < fill)
                for (int q = r.i(0, 1); q < 2; ++q) {
                    T v = val<T>(r);
                    h.addBasis(i, j, v), x.b(i, j) += v;
                }
    h.compress(k, n);
    x.h = h;
    return x;
}
static bool close(const M &a, const M &b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() < 1e-9); }
template <class T> bool is(const Hamiltonianmatrix<T> &h, const M &e, const M &b) { return close(dense(h.entries()), e) && close(dense(h.basis()), b); }
// columns of b that are kept
static M cols(const M &b, const std::vector<int> &k) {
    M r(b.rows(), k.size());
    for (size_t i = 0; i < k.size(); ++i) r.col(i) = b.col(k[i]);
    return r;
}
static M block(const M &b, const std::vector<int> &k) {
    M r(k.size(), k.size());
    for (size_t i = 0; i < k.size(); ++i)
        for (size_t j = 0; j < k.size(); ++j) r(i, j) = b(k[i], k[j]);
    return r;
}
template <class T> void go(Rng &r, const char *g, const std::string &dir) {
    int n = r.i(1, 6), k = r.i(1, 6), fill = r.i(0, 10);
    Ref<T> x = any<T>(r, n, k, fill), y = any<T>(r, n, k, r.i(0, 10));
    std::string log = str(n, " coordinates, ", k, " vectors, fill ", fill);
    bool eq = is(x.h, x.e, x.b) && int(x.h.num_basisvectors()) == k && int(x.h.num_coordinates()) == n;
    check(eq, g, "triplets", log);
    // arithmetic; sometimes after the bytes were made
    if (r.b()) x.h.serialize(), y.h.serialize();
    auto roundtrip = [&](auto &&h, const M &e, const M &b, const char *key) {
        bool ok = is(h, e, b);
        check(ok, g, key, log);
        // and what is saved is the matrix as it is now
        Hamiltonianmatrix<T> z;
        bytes_t u = h.serialize();
        z.deserialize(u);
        ok = is(z, e, b);
        check(ok, g, "bytes", str(log, ", after ", key));
        ok = z.serialize() == u && z.hashEntries() == h.hashEntries();
        check(ok, g, "same-bytes", str(log, ", after ", key));
        if (r.i(0, 3) == 0) {
            std::string f = dir + "/m";
            h.save(f);
            Hamiltonianmatrix<T> w;
            ok = w.load(f) && is(w, e, b);
            check(ok, g, "file", str(log, ", after ", key));
        }
    };
    double d = r.u(-2, 2);
    T s = val<T>(r);
    roundtrip(x.h, x.e, x.b, "unchanged");
    roundtrip(x.h + y.h, x.e + y.e, x.b, "sum");
    roundtrip(x.h - y.h, x.e - y.e, x.b, "difference");
    roundtrip(s * x.h, C(s) * x.e, x.b, "scaled");
    roundtrip(x.h * s, C(s) * x.e, x.b, "scaled right");
    roundtrip(d * x.h, d * x.e, x.b, "scaled by a real number");
    roundtrip(x.h * d, d * x.e, x.b, "scaled right by a real number");
    auto touch = [&](Hamiltonianmatrix<T> &h) {
        int q = r.i(0, 3);
        if (q == 0) h.serialize();
        if (q == 1) h.hashEntries();
        if (q == 2) h.hashBasis();
    };
    auto a = x.h;
    touch(a), a += y.h;
    roundtrip(a, x.e + y.e, x.b, "+=");
    touch(a), a -= y.h;
    roundtrip(a, x.e, x.b, "+= and -=");
    touch(a), a -= y.h;
    roundtrip(a, x.e - y.e, x.b, "-=");
    a = x.h, touch(a), a -= x.h;
    roundtrip(a, 0 * x.e, x.b, "-= itself");
    roundtrip(x.h.abs(), x.e.cwiseAbs().template cast<C>(), x.b, "abs");
    {
        M t = x.b.adjoint() * y.b;
        roundtrip(x.h.changeBasis(y.h.basis()), t.adjoint() * x.e * t, y.b, "changeBasis");
    }
    // selections
    std::vector<int> keep;
    double cut = r.u(0, 2);
    for (int i = 0; i < k; ++i)
        if (std::abs(x.e(i, i)) < cut) keep.push_back(i);
    a = x.h, a.serialize(), a.applyCutoff(cut);
    roundtrip(a, block(x.e, keep), cols(x.b, keep), "applyCutoff");
    std::vector<bool> nec(n);
    std::vector<int> rows;
    for (int i = 0; i < n; ++i)
        if ((nec[i] = r.b())) rows.push_back(i);
    keep.clear();
    bool edge = false;
    for (int i = 0; i < k; ++i) {
        double q = 0;
        for (int j = 0; j < n; ++j) q += nec[j] * std::norm(x.b(j, i));
        edge = edge || std::abs(q - 0.05) < 1e-9;
        if (q > 0.05) keep.push_back(i);
    }
    a = x.h, a.serialize(), a.removeUnnecessaryBasisvectors(nec);
    if (!edge) roundtrip(a, block(x.e, keep), cols(x.b, keep), "removeUnnecessaryBasisvectors of coordinates");
    keep.clear(), edge = false;
    for (int i = 0; i < k; ++i) {
        double q = x.b.col(i).squaredNorm();
        edge = edge || std::abs(q - 0.05) < 1e-9;
        if (q > 0.05) keep.push_back(i);
    }
    a = x.h, a.serialize(), a.removeUnnecessaryBasisvectors();
    if (!edge) roundtrip(a, block(x.e, keep), cols(x.b, keep), "removeUnnecessaryBasisvectors");
    a = x.h, a.serialize(), a.removeUnnecessaryStates(nec);
    M t(rows.size(), k);
    for (size_t i = 0; i < rows.size(); ++i) t.row(i) = x.b.row(rows[i]);
    roundtrip(a, x.e, t, "removeUnnecessaryStates");
    std::vector<bool> found(n), want(n);
    edge = false;
    for (int j = 0; j < n; ++j) {
        found[j] = r.i(0, 3) == 0;
        double q = x.b.row(j).squaredNorm();
        edge = edge || std::abs(q - 0.05) < 1e-9;
        want[j] = found[j] || q > 0.05;
    }
    x.h.findUnnecessaryStates(found);
    check(edge || found == want, g, "findUnnecessaryStates", log);
    std::vector<ptrdiff_t> idx;
    std::vector<int> sel;
    for (int i = 0; i < k; ++i)
        if (r.b()) idx.insert(idx.begin() + r.i(0, idx.size()), i);
    for (auto i : idx) sel.push_back(i);
    roundtrip(x.h.getBlock(idx), block(x.e, sel), cols(x.b, sel), "getBlock");
    // a diagonalized matrix of orthonormal vectors is the same operator, up to the pruning of small coefficients
    Ref<T> z = any<T>(r, k, k, 0);
    z.h = Hamiltonianmatrix<T>(x.h.entries(), Eigen::SparseMatrix<T>(Eigen::SparseMatrix<T>(k, k)));
    z.h.basis().setIdentity();
    z.h.serialize();
    z.h.diagonalize();
    M e = dense(z.h.entries()), b = dense(z.h.basis());
    eq = e.isDiagonal(1e-12) && (b.adjoint() * b - M::Identity(k, k)).cwiseAbs().maxCoeff() < 1e-2 && (b * e * b.adjoint() - x.e).cwiseAbs().maxCoeff() < 2e-2;
    check(eq, g, "diagonalize", log);
    roundtrip(z.h, e, b, "diagonalized");
    // the other data type is refused
    if (r.i(0, 5) == 0) {
        using U = typename std::conditional<std::is_same<T, double>::value, C, double>::type;
        Hamiltonianmatrix<U> o;
        bool threw = false;
        std::stringstream sink;
        auto *old = std::cout.rdbuf(sink.rdbuf());
        try {
            bytes_t u = x.h.serialize();
            o.deserialize(u);
        } catch (std::exception &) {
            threw = true;
        }
        std::cout.rdbuf(old);
        check(threw, g, "data-type", log);
    }
    // pairs of atoms: states within the energy cutoff
    Ref<T> p = any<T>(r, r.i(1, 3), r.i(1, 3), 10), q = any<T>(r, r.i(1, 3), r.i(1, 3), r.i(5, 10));
    double de = r.i(0, 3) ? r.u(0, 3) : -1;
    size_t np = p.b.rows(), nq = q.b.rows();
    std::vector<bool> got(np * nq), exp(np * nq);
    energycutoff(p.h, q.h, de, got);
    edge = false;
    for (int i = 0; i < p.b.cols(); ++i)
        for (int j = 0; j < q.b.cols(); ++j) {
            double v = std::abs(p.e(i, i) + q.e(j, j));
            edge = edge || std::abs(v - de) < 1e-9;
            if (v < de + 1e-11 || de < 0)
                for (size_t u = 0; u < np; ++u)
                    for (size_t w = 0; w < nq; ++w)
                        if (p.b(u, i) != 0. && q.b(w, j) != 0.) exp[nq * u + w] = true;
        }
    check(edge || got == exp, g, "energycutoff", str(log, " cutoff ", de));
}
void vf_search(uint64_t seed, int n) {
    char d[] = "/tmp/vf_s19_XXXXXX";
    if (!mkdtemp(d)) std::exit(2);
    Rng r(seed);
    for (int i = 0; i < n; ++i) {
        guard("real", "real", [&] { go<double>(r, "real matrices", d); });
        guard("complex", "complex", [&] { go<C>(r, "complex matrices", d); });
    }
    std::remove((std::string(d) + "/m").c_str());
    rmdir(d);
}
void vf_replay(const std::string &, const KV &) {}
