// Shared by the harnesses of the Hamiltonian-building classes: systems, operators in the basis of states, references.
#pragma once
#include "common.hpp"
#include "Constants.hpp"
#include "MatrixElementCache.hpp"
#include "State.hpp"
#include "SystemOne.hpp"
#include "SystemTwo.hpp"
#include <Eigen/Dense>
#include <wignerSymbols/wignerSymbols-cpp.h>
namespace vf {
using C = std::complex<double>;
using M = Eigen::MatrixXcd;
using V3 = std::array<double, 3>;
inline MatrixElementCache &cache() {
    static MatrixElementCache c;
    return c;
}
// silence the library's warnings on standard error
struct Quiet {
    std::streambuf *old;
    std::ostringstream sink;
    Quiet() { old = std::cerr.rdbuf(sink.rdbuf()); }
    ~Quiet() { std::cerr.rdbuf(old); }
};
template <class T> M dense(const Eigen::SparseMatrix<T> &m) {
    M r = M::Zero(m.rows(), m.cols());
    for (int k = 0; k < m.outerSize(); ++k)
        for (typename Eigen::SparseMatrix<T>::InnerIterator it(m, k); it; ++it) r(it.row(), it.col()) += C(it.value());
    return r;
}
// a matrix over named states
template <class State> struct Op {
    std::vector<State> st;
    M m;
};
template <class State> bool by_str(const State &a, const State &b) { return a.str() < b.str(); }
// positions of the states of `st` in alphabetical order
template <class State> std::vector<size_t> order(const std::vector<State> &st) {
    std::vector<size_t> o(st.size());
    for (size_t i = 0; i < o.size(); ++i) o[i] = i;
    std::sort(o.begin(), o.end(), [&](size_t a, size_t b) { return st[a].str() < st[b].str(); });
    return o;
}
template <class State> Op<State> arrange(const std::vector<State> &st, const M &m) {
    auto o = order(st);
    Op<State> r;
    r.m.resize(o.size(), m.cols() == m.rows() ? Eigen::Index(o.size()) : m.cols());
    for (size_t i = 0; i < o.size(); ++i) {
        r.st.push_back(st[o[i]]);
        for (Eigen::Index j = 0; j < r.m.cols(); ++j) r.m(i, j) = m(o[i], m.cols() == m.rows() ? Eigen::Index(o[j]) : j);
    }
    return r;
}
// the Hamiltonian as an operator on states, whatever the basis it is kept in
template <class Sys> auto hop(Sys &s) {
    M h = dense(s.getHamiltonian()), b = dense(s.getBasisvectors());
    return arrange(s.getStates(), M(b * h * b.adjoint()));
}
// the projector on the space spanned by the basis vectors
template <class Sys> auto proj(Sys &s) {
    M b = dense(s.getBasisvectors());
    return arrange(s.getStates(), M(b * b.adjoint()));
}
template <class State> bool same(const Op<State> &a, const Op<State> &b, double tol, std::string &why) {
    if (a.st.size() != b.st.size()) {
        why = str("number of states ", a.st.size(), " instead of ", b.st.size());
        return false;
    }
    for (size_t i = 0; i < a.st.size(); ++i)
        if (a.st[i].str() != b.st[i].str()) {
            why = str("state ", a.st[i].str(), " instead of ", b.st[i].str());
            return false;
        }
    for (Eigen::Index i = 0; i < a.m.rows(); ++i)
        for (Eigen::Index j = 0; j < a.m.cols(); ++j)
            if (!(std::abs(a.m(i, j) - b.m(i, j)) <= tol)) {
                why = str("<", a.st[i].str(), "|H|", a.st[j].str(), "> = ", a.m(i, j), " instead of ", b.m(i, j));
                return false;
            }
    return true;
}
inline double sgn(double x) { return (std::lround(x) % 2) ? -1 : 1; }
inline bool diagonal(const M &m, double tol) {
    for (Eigen::Index i = 0; i < m.rows(); ++i)
        for (Eigen::Index j = 0; j < m.cols(); ++j)
            if (i != j && std::abs(m(i, j)) > tol) return false;
    return true;
}
inline bool isometry(const M &b, double tol) {
    M g = b.adjoint() * b;
    return (g - M::Identity(g.rows(), g.cols())).cwiseAbs().maxCoeff() <= tol;
}
inline std::string v3(const V3 &v) { return str("(", v[0], ",", v[1], ",", v[2], ")"); }
// the same angular momentum operators as in Cartesian space: rotation by alpha about z, then beta about y, then gamma about z
inline Eigen::Matrix3d rot(double al, double be, double ga) {
    Eigen::Matrix3d a, b, c;
    a << cos(al), -sin(al), 0, sin(al), cos(al), 0, 0, 0, 1;
    b << cos(be), 0, sin(be), 0, 1, 0, -sin(be), 0, cos(be);
    c << cos(ga), -sin(ga), 0, sin(ga), cos(ga), 0, 0, 0, 1;
    return a * b * c;
}
} // namespace vf
