// S14: entries, overlaps and choices of basis vectors, compared with dense matrices.
#include "sys.hpp"
using namespace vf;
template <class T> constexpr bool cplx = std::is_same<T, C>::value;
template <class T> T mk(C c);
template <> double mk<double>(C c) { return c.real(); }
template <> C mk<C>(C c) { return c; }
template <class T> SystemOne<T> one(Rng &r, double strength = 1, bool pick_m = true) {
    SystemOne<T> s("Rb", cache());
    s.restrictN(r.b() ? std::set<int>{60} : std::set<int>{60, 61}), s.restrictL({0, 1});
    if (pick_m && r.b()) s.restrictM({-0.5f, 0.5f});
    s.setEfield({{r.u(-5, 5) * strength, cplx<T> ? r.u(-5, 5) * strength : 0, r.u(-5, 5) * strength}});
    s.setBfield({{r.u(-9, 9) * strength, cplx<T> ? r.u(-9, 9) * strength : 0, r.u(1, 9) * strength}});
    return s;
}
template <class T> SystemTwo<T> two(Rng &r) {
    SystemOne<T> a("Rb", cache());
    a.restrictN({60}), a.restrictL({0, 1}), a.restrictM({-0.5f, 0.5f}), a.setBfield({{0, 0, r.u(1, 50)}});
    SystemTwo<T> s(a, a, cache());
    s.setDistanceVector({{r.u(2, 6), cplx<T> ? r.u(-6, 6) : 0, r.u(2, 6)}});
    return s;
}
template <class Sys> std::string desc(Sys &, const char *k, bool d) { return std::string(k) + (d ? " diagonalized" : ""); }
// entries of the Hamiltonian
template <class T, class Sys> void entries(Sys s, Rng &r, const char *kind) {
    bool diag = r.b();
    if (diag) s.diagonalize();
    auto st = s.getStates();
    M b = dense(s.getBasisvectors());
    auto full = [&] { return M(b * dense(s.getHamiltonian()) * b.adjoint()); };
    M h = full();
    size_t i = r.i(0, st.size() - 1), j = r.i(0, st.size() - 1);
    // prefer entries that are not zero
    for (int k = 0; k < 40 && std::abs(h(i, j)) < 1e-6; ++k) i = r.i(0, st.size() - 1), j = r.i(0, st.size() - 1);
    if (r.i(0, 3) == 0) j = i;
    std::string w = desc(s, kind, diag) + str(" entry <", st[i].str(), "|H|", st[j].str(), ">");
    check(std::abs(C(s.getHamiltonianEntry(st[i], st[j])) - h(i, j)) < 1e-6, "entries", "entry-read", w + str(" read as ", C(s.getHamiltonianEntry(st[i], st[j])), " is ", h(i, j)));
    C v(r.u(-3, 3), cplx<T> && i != j ? r.u(-3, 3) : 0);
    bool add = r.b();
    if (add) s.addHamiltonianEntry(st[i], st[j], mk<T>(v));
    else s.setHamiltonianEntry(st[i], st[j], mk<T>(v));
    M want = h;
    want(i, j) = add ? h(i, j) + v : v;
    want(j, i) = std::conj(want(i, j));
    M got = full();
    Eigen::Index x, y;
    double e = (got - want).cwiseAbs().maxCoeff(&x, &y);
    check(e < 1e-6, "entries", add ? "entry-added" : "entry-set", w + (add ? " added " : " set to ") + str(v, ": entry ", x, ",", y, " is ", got(x, y), " instead of ", want(x, y)));
    check(std::abs(C(s.getHamiltonianEntry(st[i], st[j])) - want(i, j)) < 1e-6, "entries", "entry-read-back", w + str(" reads ", C(s.getHamiltonianEntry(st[i], st[j])), " instead of ", want(i, j)));
}
static bool near_v(const Eigen::VectorXd &a, const Eigen::VectorXd &b, double tol) { return a.size() == b.size() && (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() < tol); }
template <class T, class Sys> void overlaps(Sys s, Rng &r, const char *kind, bool rotate) {
    s.diagonalize();
    auto st = s.getStates();
    M b = dense(s.getBasisvectors());
    std::vector<size_t> idx;
    for (size_t i = 0; i < st.size(); ++i)
        if (r.i(0, 3) == 0) idx.push_back(i);
    std::vector<typename std::decay<decltype(st[0])>::type> sel;
    for (auto i : idx) sel.push_back(st[i]);
    Eigen::VectorXd want = Eigen::VectorXd::Zero(b.cols());
    for (auto i : idx)
        for (Eigen::Index k = 0; k < b.cols(); ++k) want[k] += std::norm(b(i, k));
    check(near_v(s.getOverlap(idx), want, 1e-9) && near_v(s.getOverlap(sel), want, 1e-9), "overlaps", "overlap", str(kind, " with ", idx.size(), " states"));
    size_t i = r.i(0, st.size() - 1);
    Eigen::VectorXd w1 = b.row(i).cwiseAbs2().transpose();
    check(near_v(s.getOverlap(st[i]), w1, 1e-9) && near_v(s.getOverlap(i), w1, 1e-9), "overlaps", "overlap-state", str(kind, " ", st[i].str()));
    for (size_t k = 0; k < 3; ++k) {
        size_t q = r.i(0, st.size() - 1);
        check(s.getStateIndex(st[q]) == q, "overlaps", "state-index", str(kind, " ", st[q].str()));
    }
    auto all = s.getStateIndex(sel);
    check(all == idx, "overlaps", "state-indices", str(kind, " ", idx.size(), " states"));
    // main states
    auto ms = s.getMainStates();
    bool ok = ms.size() == size_t(b.cols());
    for (size_t k = 0; ok && k < ms.size(); ++k) ok = std::abs(b.col(k).cwiseAbs().maxCoeff() - std::abs(b(s.getStateIndex(ms[k]), k))) < 1e-12;
    check(ok, "overlaps", "main-states", kind);
    // the basis vector that belongs to a state
    size_t bi = s.getBasisvectorIndex(st[i]);
    check(bi < size_t(b.cols()) && std::abs(std::abs(b(i, bi)) - b.row(i).cwiseAbs().maxCoeff()) < 1e-12, "overlaps", "basisvector-index", str(kind, " ", st[i].str()));
    if (rotate) {
        double al = cplx<T> ? r.u(-7, 7) : 0, be = r.u(-3, 3), ga = cplx<T> ? r.u(-7, 7) : 0;
        Sys t = s;
        t.rotate(al, be, ga);
        std::string w = str(kind, " ", st[i].str(), " angles ", al, ",", be, ",", ga);
        check(near_v(t.getOverlap(st[i], al, be, ga), w1, 1e-7), "overlaps", "overlap-rotated", w);
        check(near_v(t.getOverlap(idx, al, be, ga), want, 1e-7), "overlaps", "overlap-rotated-list", w);
        if (cplx<T>) {
            // the axes of the rotated frame instead of the angles
            Eigen::Matrix3d R = rot(al, be, ga);
            // rounded axes are refused unless orthogonal to the last digit: take multiples of a quarter turn
            double q1 = r.i(-2, 2) * M_PI / 2, q2 = r.i(-2, 2) * M_PI / 2, q3 = r.i(-2, 2) * M_PI / 2;
            R = rot(q1, q2, q3);
            std::array<double, 3> z, y;
            for (int k = 0; k < 3; ++k) z[k] = std::round(R(k, 2)) + 0., y[k] = std::round(R(k, 1)) + 0.;
            check(near_v(s.getOverlap(st[i], z, y), s.getOverlap(st[i], q1, q2, q3), 1e-7), "overlaps", "overlap-axes", str(kind, " ", st[i].str(), " angles ", q1, ",", q2, ",", q3));
            Sys p = s, q = s;
            p.rotate(z, y), q.rotate(q1, q2, q3);
            std::string why;
            bool eq1 = same(hop(p), hop(q), 1e-6, why);
            check(eq1, "overlaps", "rotate-axes", str(kind, " angles ", q1, ",", q2, ",", q3, ": ", why));
        }
    }
}
// choosing basis vectors
template <class T, class Sys> void choose(Sys s, Rng &r, const char *kind) {
    if (r.b()) s.diagonalize();
    M b = dense(s.getBasisvectors()), h = dense(s.getHamiltonian());
    std::vector<size_t> idx;
    for (Eigen::Index k = 0; k < b.cols(); ++k)
        if (r.b()) idx.push_back(k);
    if (idx.empty()) idx.push_back(0);
    for (size_t k = idx.size() - 1; k > 0; --k) std::swap(idx[k], idx[r.i(0, k)]);
    Sys d = s;
    {
        auto dup = idx;
        dup.push_back(idx[0]);
        check(throws([&] { Sys(s).constrainBasisvectors(dup); }), "choices", "choose-twice", kind);
        check(throws([&] { Sys(s).constrainBasisvectors({size_t(b.cols())}); }), "choices", "choose-unknown", kind);
    }
    d.constrainBasisvectors(idx);
    M nb = dense(d.getBasisvectors()), nh = dense(d.getHamiltonian());
    bool ok = nb.cols() == Eigen::Index(idx.size()) && nb.rows() == b.rows() && nh.rows() == nb.cols() && d.getNumBasisvectors() == idx.size();
    for (size_t k = 0; ok && k < idx.size(); ++k) {
        ok = (nb.col(k) - b.col(idx[k])).norm() < 1e-12;
        for (size_t q = 0; ok && q < idx.size(); ++q) ok = std::abs(nh(k, q) - h(idx[k], idx[q])) < 1e-9;
    }
    check(ok, "choices", "choose", str(kind, " ", idx.size(), " of ", b.cols(), " vectors"));
    // calling the states what they are
    Sys u = d;
    u.unitarize();
    M ub = dense(u.getBasisvectors()), uh = dense(u.getHamiltonian());
    check(ub.rows() == nb.cols() && ub.isIdentity(1e-12) && (uh - nh).cwiseAbs().maxCoeff() < 1e-9 && u.getNumStates() == idx.size(), "choices", "unitarize", str(kind, " ", idx.size(), " vectors"));
    auto c = s.getConnections(s, 0.001);
    (void)c;
}
// weak fields: every basis vector belongs to a state
template <class T> void weak(Rng &r) {
    // the magnetic field lifts the degeneracies
    SystemOne<T> s("Rb", cache());
    s.restrictN({60}), s.restrictL({0, 1});
    s.setBfield({{0, 0, r.u(1, 5)}}), s.setEfield({{r.u(-0.01, 0.01), cplx<T> ? r.u(-0.01, 0.01) : 0, r.u(-0.01, 0.01)}});
    SystemOne<T> before = s;
    s.diagonalize();
    auto st = s.getStates();
    M b = dense(s.getBasisvectors()), h = dense(s.getHamiltonian());
    std::vector<StateOne> sel;
    for (auto &x : st)
        if (r.b()) sel.push_back(x);
    for (size_t k = sel.size(); k > 1; --k) std::swap(sel[k - 1], sel[r.i(0, k - 1)]);
    if (sel.empty() || sel.size() == st.size()) return;
    auto ix = s.getBasisvectorIndex(sel);
    bool ok = ix.size() == sel.size();
    for (size_t k = 0; ok && k < sel.size(); ++k) ok = ix[k] == s.getBasisvectorIndex(sel[k]) && std::norm(b(s.getStateIndex(sel[k]), ix[k])) > 0.9;
    check(ok, "weak fields", "basisvector-indices", str(sel.size(), " of ", st.size(), " states, B=", v3(V3{{0, 0, 1}})));
    auto dup = sel;
    dup.push_back(sel[0]);
    check(throws([&] { s.getBasisvectorIndex(dup); }), "weak fields", "basisvector-indices-twice", "");
    // connections of the vectors with field to the ones without
    SystemOne<T> s0("Rb", cache());
    s0.restrictN({60}), s0.restrictL({0, 1});
    s0.setBfield({{0, 0, 1}});
    s0.diagonalize();
    auto c = s.getConnections(s0, 0.5);
    ok = c[0].size() == st.size() && c[1].size() == st.size();
    for (size_t k = 0; ok && k < c[0].size(); ++k) ok = s.getMainStates()[c[0][k]] == s0.getMainStates()[c[1][k]];
    check(ok, "weak fields", "connections", str(c[0].size(), " of ", st.size()));
    SystemOne<T> f = s;
    f.forgetStatemixing();
    M fb = dense(f.getBasisvectors()), fh = dense(f.getHamiltonian());
    ok = (fh - h).cwiseAbs().maxCoeff() < 1e-9;
    for (Eigen::Index k = 0; ok && k < fb.cols(); ++k) {
        Eigen::Index q;
        b.col(k).cwiseAbs().maxCoeff(&q);
        for (Eigen::Index i = 0; ok && i < fb.rows(); ++i) ok = std::abs(fb(i, k) - C(i == q)) < 1e-12;
    }
    check(ok, "weak fields", "forget-mixing", "");
}
// the effective Hamiltonian of some vectors, expressed by unperturbed vectors, has their energies
template <class T> void schrieffer_wolff(Rng &r) {
    SystemOne<T> s("Rb", cache()), s0("Rb", cache());
    for (auto *x : {&s, &s0}) x->restrictN({60, 61}), x->restrictL({0, 1}), x->restrictM({-0.5f, 0.5f});
    V3 b{{0, 0, r.u(1, 5)}};
    s0.setBfield(b), s.setBfield(b), s.setEfield({{r.u(-.1, .1), cplx<T> ? r.u(-.1, .1) : 0, r.u(-.1, .1)}});
    std::vector<size_t> idx;
    s0.diagonalize(), s.diagonalize();
    size_t n = s0.getNumBasisvectors(), k = r.i(1, 4);
    size_t lo = r.i(0, n - k);
    for (size_t i = lo; i < lo + k; ++i) idx.push_back(i);
    s0.constrainBasisvectors(idx);
    auto main0 = s0.getMainStates();
    std::vector<double> want;
    M h = dense(s.getHamiltonian());
    for (auto q : s.getBasisvectorIndex(main0)) want.push_back(h(q, q).real());
    s.applySchriefferWolffTransformation(s0);
    M e = dense(s.getHamiltonian()), nb = dense(s.getBasisvectors()), b0 = dense(s0.getBasisvectors());
    std::string w = str(k, " vectors from ", lo, " B ", b[2]);
    check(e.rows() == Eigen::Index(k) && (e - e.adjoint()).cwiseAbs().maxCoeff() < 1e-7, "effective Hamiltonians", "sw-hermitian", w);
    if (e.rows() != Eigen::Index(k)) return;
    Eigen::SelfAdjointEigenSolver<M> es(e);
    std::sort(want.begin(), want.end());
    double d = 0;
    for (size_t i = 0; i < k; ++i) d = std::max(d, std::abs(es.eigenvalues()[i] - want[i]));
    check(d < 1e-5, "effective Hamiltonians", "sw-energies", w + str(" off by ", d));
    check(nb.cols() == Eigen::Index(k) && isometry(nb, 1e-7), "effective Hamiltonians", "sw-basis", w);
    // closest to the unperturbed vectors: overlap matrix is positive definite
    // the direct rotation maps b0 to nb: b0^dagger nb is Hermitian and positive
    auto st = s.getStates();
    M ov = M::Zero(k, k);
    for (Eigen::Index i = 0; i < nb.rows(); ++i) ov += b0.row(s0.getStateIndex(st[i])).adjoint() * nb.row(i);
    check((ov - ov.adjoint()).cwiseAbs().maxCoeff() < 1e-6 && Eigen::SelfAdjointEigenSolver<M>(ov).eigenvalues()[0] > 0.5, "effective Hamiltonians", "sw-direct-rotation", w);
}
// systems of disjoint states are combined
template <class T> void combine(Rng &r) {
    std::set<float> ms{-1.5f, -0.5f, 0.5f, 1.5f}, a, b;
    for (auto m : ms) (r.b() ? a : b).insert(m);
    if (a.empty() || b.empty()) return;
    auto mk1 = [&](const std::set<float> &m) {
        SystemOne<T> s("Rb", cache());
        s.restrictN({60}), s.restrictL({0, 1, 2}), s.restrictM(m);
        return s;
    };
    V3 e{{0, 0, r.u(1, 9)}}, f{{0, 0, r.u(1, 9)}};
    SystemOne<T> x = mk1(a), y = mk1(b), z = mk1(ms);
    for (auto *s : {&x, &y, &z}) s->setEfield(e);
    int stage = r.i(0, 2);
    if (stage == 1) x.buildHamiltonian(), y.buildHamiltonian();
    if (stage == 2) x.diagonalize(), y.diagonalize();
    x.add(y);
    std::string w = str(a.size(), "+", b.size(), " values of m, stage ", stage, " E ", e[2]), why;
    bool eq2 = same(hop(x), hop(z), 1e-6, why);
    check(eq2, "combined systems", "combined", w + ": " + why);
    x.setEfield(f), z.setEfield(f);
    bool eq3 = same(hop(x), hop(z), 1e-6, why);
    check(eq3, "combined systems", "combined-then-changed", w + ": " + why);
    SystemOne<T> u = mk1(a), v = mk1(a);
    check(throws([&] { u.add(v); }), "combined systems", "combined-overlapping", w);
}
template <class T> void all(Rng &r, int i) {
    Quiet q;
    entries<T>(one<T>(r), r, "one atom");
    overlaps<T>(one<T>(r, 1, false), r, "one atom", true);
    choose<T>(one<T>(r), r, "one atom");
    weak<T>(r);
    combine<T>(r);
    if (i % 2 == 0) schrieffer_wolff<T>(r);
    if (i % 3 == 0) entries<T>(two<T>(r), r, "two atoms");
    if (i % 3 == 1) overlaps<T>(two<T>(r), r, "two atoms", false);
    if (i % 3 == 2) choose<T>(two<T>(r), r, "two atoms");
}
void vf_search(uint64_t seed, int n) {
    Rng r(seed);
    for (int i = 0; i < n; ++i) {
        try { all<double>(r, i); } catch (std::exception &e) { fail("throws", str("real, unexpected exception: ", e.what())); }
        try { all<C>(r, i); } catch (std::exception &e) { fail("throws", str("complex, unexpected exception: ", e.what())); }
    }
}
void vf_replay(const std::string &, const KV &) {}
