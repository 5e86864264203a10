// S03/S04/S05: matrix elements against the closed formula, selection rules, cache histories
#include "common.hpp"
#include "Constants.hpp"
#include "MatrixElementCache.hpp"
#include "MatrixElements.hpp"
#include "QuantumDefect.hpp"
#include "State.hpp"
#include "Wavefunction.hpp"
#include <fstream>
#include <sys/stat.h>
#include <wignerSymbols/wignerSymbols-cpp.h>
using namespace vf;
namespace W = WignerSymbols;
struct Q { std::string sp; int n, l; float j, m; };
static StateOne mk(const Q &q) { return StateOne(q.sp, q.n, q.l, q.j, q.m); }
static std::string qs(const Q &q) { return str("(", q.sp, ",", q.n, ",", q.l, ",", q.j, ",", q.m, ")"); }
static double spin(const std::string &sp) { return isdigit(sp.back()) ? (sp.back() - '0' - 1) / 2. : 0.5; }
static double radial(method_t me, const Q &a, const Q &b, int k, const std::string &db) {
    static std::map<std::string, double> memo;
    // one integral per unordered pair: the library evaluates it in its own order (sums in rounding)
    const Q &p = std::tie(a.n, a.l, a.j) <= std::tie(b.n, b.l, b.j) ? a : b, &q = &p == &a ? b : a;
    std::string key = str(me, p.sp, " ", p.n, " ", p.l, " ", p.j, " ", q.n, " ", q.l, " ", q.j, " ", k, db);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    double v;
    auto go = [&](QuantumDefect const &x, QuantumDefect const &y) {
        return std::pow(au2um, k) * (me == NUMEROV ? IntegrateRadialElement<Numerov>(x, k, y) : IntegrateRadialElement<Whittaker>(x, k, y));
    };
    if (db.empty()) v = go(QuantumDefect(p.sp, p.n, p.l, p.j), QuantumDefect(q.sp, q.n, q.l, q.j));
    else v = go(QuantumDefect(p.sp, p.n, p.l, p.j, db), QuantumDefect(q.sp, q.n, q.l, q.j, db));
    return memo[key] = v;
}
static double sg(double x) { return (static_cast<long>(std::lround(x)) % 2) ? -1 : 1; }
static double ang(int k, const Q &a, const Q &b) { return sg(a.j - a.m) * W::wigner3j(a.j, k, b.j, -a.m, a.m - b.m, b.m); }
static double coms(double s, int k, const Q &a, const Q &b) { return sg(a.l + s + b.j + k) * std::sqrt((2 * a.j + 1) * (2 * b.j + 1)) * W::wigner6j(a.l, a.j, s, b.j, b.l, k); }
static double coml(double s, int k, const Q &a, const Q &b) { return sg(a.l + s + a.j + k) * std::sqrt((2 * a.j + 1) * (2 * b.j + 1)) * W::wigner6j(s, a.j, a.l, b.j, s, k); }
static double mul(int k, const Q &a, const Q &b) { return sg(a.l) * std::sqrt((2. * a.l + 1) * (2. * b.l + 1)) * W::wigner3j(a.l, k, b.l, 0, 0, 0); }
static double f_mult(method_t me, const Q &a, const Q &b, int kr, int ka, const std::string &db) {
    double s = spin(a.sp);
    return elementary_charge * radial(me, a, b, kr, db) * ang(ka, a, b) * coms(s, ka, a, b) * mul(ka, a, b);
}
static double f_mag(method_t me, const Q &a, const Q &b, const std::string &db) {
    double s = spin(a.sp);
    return -bohr_magneton * radial(me, a, b, 0, db) * ang(1, a, b) * (gL * coms(s, 1, a, b) * std::sqrt(a.l * (a.l + 1.) * (2 * a.l + 1.)) + gS * coml(s, 1, a, b) * std::sqrt(s * (s + 1) * (2 * s + 1)));
}
static Q rq(Rng &r, const std::string &sp, int lmax = 3) {
    Q q;
    q.sp = sp;
    double s = spin(sp);
    q.n = r.i(20, 24);
    q.l = r.i(0, lmax);
    double jmin = std::fabs(q.l - s);
    q.j = jmin + r.i(0, static_cast<int>(std::lround(q.l + s - jmin)));
    q.m = -q.j + r.i(0, static_cast<int>(std::lround(2 * q.j)));
    return q;
}
static Q close_to(Rng &r, const Q &a) { // often allowed by the selection rules
    for (int t = 0; t < 30; ++t) {
        Q b = rq(r, a.sp);
        if (std::fabs(b.m - a.m) <= 2 && std::abs(b.l - a.l) <= 2) return b;
    }
    return rq(r, a.sp);
}
static const double REL = 1e-6, ABS = 1e-13;
static void ask(Rng &r, MatrixElementCache &c, method_t me, Q a, Q b, const std::string &db, const std::string &tag, std::string *log = nullptr) {
    int op = r.i(0, 5), k = r.i(1, 3), kr = r.i(0, 3);
    double got = 0, want = 0;
    std::string nm;
    switch (op) {
    case 0: nm = "dipole"; got = c.getElectricDipole(mk(a), mk(b)); want = f_mult(me, a, b, 1, 1, db); break;
    case 1: nm = str("multipole k=", k); got = c.getElectricMultipole(mk(a), mk(b), k); want = f_mult(me, a, b, k, k, db); break;
    case 2: nm = str("multipole kr=", kr, " ka=", k); got = c.getElectricMultipole(mk(a), mk(b), kr, k); want = f_mult(me, a, b, kr, k, db); break;
    case 3: k = r.b() ? 0 : 2; nm = str("diamagnetism k=", k); got = c.getDiamagnetism(mk(a), mk(b), k); want = 2. / 3. * elementary_charge * f_mult(me, a, b, 2, k, db); break;
    case 4: nm = str("radial kr=", kr); got = c.getRadial(mk(a), mk(b), kr); want = radial(me, a, b, kr, db); break;
    default:
        if (!selectionRulesMomentumNew(mk(a), mk(b))) { nm = "dipole"; got = c.getElectricDipole(mk(b), mk(a)); want = f_mult(me, b, a, 1, 1, db); std::swap(a, b); }
        else { nm = "magnetic"; got = c.getMagneticDipole(mk(a), mk(b)); want = f_mag(me, a, b, db); }
    }
    std::string w = str(nm, " ", qs(a), qs(b), " method=", me, log ? " after: " + *log : "");
    check(near(got, want, REL, ABS), tag, tag + "-value", str(w, " got ", got, " want ", want));
    if (log) *log += nm + qs(a) + qs(b) + "; ";
}
static void precalc(Rng &r, MatrixElementCache &c, const std::vector<Q> &pool, std::string *log) {
    std::vector<StateOne> v;
    for (auto &q : pool) v.push_back(mk(q));
    int k = r.i(0, 4), q = r.i(-1, 1);
    switch (k) {
    case 0: c.precalculateElectricMomentum(v, q); break;
    case 1: c.precalculateMagneticMomentum(v, q); break;
    case 2: c.precalculateDiamagnetism(v, r.b() ? 0 : 2, q); break;
    case 3: c.precalculateMultipole(v, r.i(1, 2)); break;
    default: c.precalculateRadial(v, r.i(0, 2)); break;
    }
    if (log) *log += str("precalculate", k, "; ");
}
static std::vector<Q> pool_of(Rng &r, int n) {
    std::string sp = r.pick<std::string>({"Rb", "Cs", "Sr1", "Sr3"});
    std::vector<Q> p{rq(r, sp)};
    while ((int)p.size() < n) p.push_back(close_to(r, p[0]));
    return p;
}
#if defined(PROP_S03)
static void rules(const Q &a, const Q &b, int k, int q, MatrixElementCache *c) {
    StateOne x = mk(a), y = mk(b);
    std::string w = str(qs(a), qs(b), " kappa=", k, " q=", q);
    bool tri = std::abs(a.l - b.l) <= k && (a.l - b.l - k) % 2 == 0 && std::fabs(a.j - b.j) <= k && a.j + b.j >= k;
    bool acc = k == 2 && a.j == 1.5 && b.j == 1.5 && a.m == -b.m && std::fabs(a.m - b.m) == 1;
    bool want = tri && a.m == b.m + q && std::abs(q) <= k && !acc;
    check(selectionRulesMultipoleNew(x, y, k, q) == want, "multipole rule", "multipole", w);
    check(selectionRulesMultipoleNew(x, y, k) == (tri && !acc && std::fabs(a.m - b.m) <= k), "multipole rule without projection", "multipole-noq", w);
    bool wm = a.l == b.l && std::fabs(a.j - b.j) <= 1 && a.m == b.m + q && std::abs(q) <= 1;
    check(selectionRulesMomentumNew(x, y, q) == wm, "momentum rule", "momentum", w);
    check(selectionRulesMomentumNew(x, y) == (a.l == b.l && std::fabs(a.j - b.j) <= 1 && std::fabs(a.m - b.m) <= 1), "momentum rule without projection", "momentum-noq", w);
    StateOneOld xo(a.sp, a.n, a.l, a.j, a.m), yo(b.sp, b.n, b.l, b.j, b.m);
    check(selectionRulesMultipole(xo, yo, k, q) == want && selectionRulesMultipole(xo, yo, k) == (tri && !acc && std::fabs(a.m - b.m) <= k), "legacy multipole rule", "old-multipole", w);
    check(selectionRulesMomentum(xo, yo, q) == wm && selectionRulesMomentum(xo, yo) == (a.l == b.l && std::fabs(a.j - b.j) <= 1 && std::fabs(a.m - b.m) <= 1), "legacy momentum rule", "old-momentum", w);
    if (c && k >= 1 && !selectionRulesMultipoleNew(x, y, k)) {
        double f = ang(k, a, b) * coms(spin(a.sp), k, a, b) * mul(k, a, b);
        check(std::fabs(f) < 1e-12, "rejected pairs have zero elements", "zero", w);
    }
}
void vf_search(uint64_t seed, int n) {
    Rng r(seed);
    MatrixElementCache c;
    for (int i = 0; i < n; ++i)
        guard("s03", "case", [&] {
            Q a = rq(r, r.pick<std::string>({"Rb", "Sr1", "Sr3", "X4"}), 4), b = r.b() ? close_to(r, a) : rq(r, a.sp, 4);
            if (r.i(0, 9) == 0) { a.sp = b.sp = "Rb"; a.l = r.i(1, 2); b.l = r.i(1, 2); a.j = b.j = 1.5; a.m = r.i(-2, 1) + .5; b.m = -a.m; }
            int k = r.i(0, 4);
            rules(a, b, k, r.i(0, 3) == 0 ? r.i(-4, 4) : (int)std::lround(a.m - b.m), &c);
        });
}
void vf_replay(const std::string &, const KV &kv) {
    std::string sp = "X" + std::to_string((int)num(kv, "S", 1) + 1);
    auto q = [&](const std::string &p) { return Q{sp, (int)num(kv, p + "_n", 1), (int)num(kv, p + "_l"), (float)num(kv, p + "_j"), (float)num(kv, p + "_m")}; };
    guard("s03", "replay", [&] { rules(q("a"), q("b"), (int)num(kv, "kappa", 1), (int)num(kv, "q"), nullptr); });
}
#elif defined(PROP_S04)
static void keys(Rng &r, const Q &a, const Q &b) { // symmetric use of one cache entry for two orders
    MatrixElementCache c;
    std::string log;
    for (int t = 0; t < 2; ++t) { ask(r, c, NUMEROV, a, b, "", "both-orders", &log); ask(r, c, NUMEROV, b, a, "", "both-orders", &log); }
}
void vf_search(uint64_t seed, int n) {
    Rng r(seed);
    for (int i = 0; i < n; ++i)
        guard("s04", "case", [&] {
            auto p = pool_of(r, 4);
            MatrixElementCache c;
            method_t me = NUMEROV;
            std::string log;
            for (int t = 0; t < 8; ++t) {
                if (r.i(0, 3) == 0) precalc(r, c, p, &log);
                const Q &a = r.pick(p), &b = r.pick(p);
                ask(r, c, me, a, b, "", "history", &log);
                if (r.b()) ask(r, c, me, b, a, "", "history", &log);
            }
            keys(r, p[0], p[1]);
            Q o = p[0];
            o.sp = o.sp == "Rb" ? "Cs" : "Rb";
            check(throws([&] { c.getElectricDipole(mk(p[0]), mk(o)); }) && throws([&] { c.getMagneticDipole(mk(p[0]), mk(o)); }) && throws([&] { c.getRadial(mk(p[0]), mk(o), 1); }), "different species refused", "species", qs(p[0]) + qs(o));
        });
}
void vf_replay(const std::string &, const KV &) {}
#elif defined(PROP_S05)
static std::string fresh_dir(const char *tag) {
    static int k = 0;
    std::string d = str(tag, ++k);
    mkdir(d.c_str(), 0700);
    return d;
}
static void load_csv(Rng &r) {
    // externally supplied reduced dipole elements take the place of computed ones
    std::string sp = r.pick<std::string>({"Rb", "Sr1", "Sr3"});
    std::vector<std::pair<Q, Q>> rows;
    std::vector<double> vals;
    std::set<std::string> seen;
    for (int t = 0; t < 6; ++t) {
        Q a = rq(r, sp), b = rq(r, sp);
        if (std::fabs(mul(1, a, b) * coms(spin(sp), 1, a, b)) < 1e-9) continue;
        std::string k1 = str(a.n, " ", a.l, " ", a.j, "/", b.n, " ", b.l, " ", b.j), k2 = str(b.n, " ", b.l, " ", b.j, "/", a.n, " ", a.l, " ", a.j);
        if (seen.count(k1) || seen.count(k2)) continue;
        seen.insert(k1);
        rows.push_back({a, b});
        vals.push_back(std::round(1000 * r.u(-20, 20)) / 1000);
    }
    {
        std::ofstream f("dip.csv");
        f << "n1;l1;j1;n2;l2;j2;value\n";
        for (size_t i = 0; i < rows.size(); ++i) {
            const Q &a = rows[i].first, &b = rows[i].second;
            f << a.n << ";" << a.l << ";" << a.j << ";" << b.n << ";" << b.l << ";" << b.j << ";" << vals[i] << "\n";
        }
    }
    MatrixElementCache c;
    c.loadElectricDipoleDB("dip.csv", sp);
    for (size_t i = 0; i < rows.size(); ++i) {
        Q a = rows[i].first, b = rows[i].second;
        std::string w = qs(a) + qs(b) + str(" value ", vals[i]);
        double red = coms(spin(sp), 1, a, b) * mul(1, a, b), red2 = coms(spin(sp), 1, b, a) * mul(1, b, a);
        double got = c.getRadial(mk(a), mk(b), 1);
        // the file's value is the reduced element of the pair in the order of the cache's key
        check(near(std::fabs(got), std::fabs(vals[i] * au2um / red), 1e-6, 1e-12) && near(std::fabs(red), std::fabs(red2)), "loaded dipole elements", "load-value", w);
        check(near(c.getElectricDipole(mk(a), mk(b)), elementary_charge * got * ang(1, a, b) * red, 1e-6, 1e-12), "loaded dipole elements", "load-used", w);
    }
}
static std::string other_db() { // quantum defects shifted: visibly different radial elements
    static std::string path;
    if (!path.empty()) return path;
    path = "otherdefects.sql";
    std::ofstream f(path);
    f << "DROP TABLE IF EXISTS model_potential; CREATE TABLE model_potential (element text, L integer, ac real, Z integer, a1 real, a2 real, a3 real, a4 real, rc real);"
      << "DROP TABLE IF EXISTS rydberg_ritz; CREATE TABLE rydberg_ritz (element text, L integer, J real, d0 real, d2 real, d4 real, d6 real, d8 real, Ry real);";
    for (std::string sp : {"Rb", "Cs", "Sr1", "Sr3"})
        for (int l = 0; l <= 3; ++l) {
            f << "INSERT INTO model_potential VALUES('" << sp << "'," << l << ",9.1,37,3.7,1.6,-9.9,0.2,1.7);";
            for (int two = -2; two <= 2; ++two) {
                double j = l + two / 2.;
                if (j >= 0 && (two % 2 == 0) == (sp == "Sr1" || sp == "Sr3"))
                    f << "INSERT INTO rydberg_ritz VALUES('" << sp << "'," << l << "," << j << "," << 2.5 - l * .6 + j * .01 << ",0.1,0,0,0,109736.6);";
            }
        }
    return path;
}
static void defect_db(Rng &r) {
    // a cache that was given its database before the first request uses it for every value
    auto p = pool_of(r, 3);
    std::string log = "defect database set; ";
    MatrixElementCache c;
    c.setDefectDB(other_db());
    check(c.getDefectDB() == other_db(), "defect database", "defectdb-name", c.getDefectDB());
    for (int t = 0; t < 4; ++t) {
        ask(r, c, NUMEROV, r.pick(p), r.pick(p), other_db(), "defect-database", &log);
        MatrixElementCache d; // another cache with the standard database, in between
        std::string l2 = log + "(standard database) ";
        ask(r, d, NUMEROV, r.pick(p), r.pick(p), "", "defect-database", &l2);
    }
    // the database of a cache that has already answered is replaced
    MatrixElementCache e(fresh_dir("dbx"));
    log = "answers before the defect database is set; ";
    double before = e.getRadial(mk(p[0]), mk(p[1]), 1), std_ = radial(NUMEROV, p[0], p[1], 1, "");
    check(near(before, std_, REL, ABS), "defect database", "defectdb-before", qs(p[0]) + qs(p[1]));
    e.setDefectDB(other_db());
    double want = radial(NUMEROV, p[0], p[2], 1, other_db());
    check(near(e.getRadial(mk(p[0]), mk(p[2]), 1), (p[2].n == p[1].n && p[2].l == p[1].l && p[2].j == p[1].j) ? std_ : want, REL, ABS), "defect database", "defectdb-after-new", qs(p[0]) + qs(p[2]));
    check(near(e.getRadial(mk(p[0]), mk(p[1]), 1), radial(NUMEROV, p[0], p[1], 1, other_db()), REL, ABS), "defect database", "defectdb-stale", qs(p[0]) + qs(p[1]) + ": radial element cached before setDefectDB is still returned");
    // the values of the other database never reach the shared file: reopen gives standard values
}
void vf_search(uint64_t seed, int n) {
    Rng r(seed);
    for (int i = 0; i < n; ++i)
        guard("s05", "case", [&] {
            if (i % 4 == 0) defect_db(r);
            auto p = pool_of(r, 4);
            std::string d = fresh_dir("db"), log;
            method_t me = NUMEROV;
            auto c = std::unique_ptr<MatrixElementCache>(r.i(0, 3) ? new MatrixElementCache(d) : new MatrixElementCache());
            for (int t = 0; t < 9; ++t) {
                switch (r.i(0, 7)) {
                case 0: precalc(r, *c, p, &log); break;
                case 1: me = me == NUMEROV ? WHITTAKER : NUMEROV; c->setMethod(me); log += str("method ", me, "; "); break;
                case 2: c.reset(new MatrixElementCache(d)); me = NUMEROV; log += "reopen; "; break;
                case 3: { // a request that fails must not disturb later ones
                    Q bad = p[0], bad2 = p[1];
                    bad.sp = bad2.sp = "Nosuch";
                    if (r.b()) {
                        check(throws([&] { c->getElectricDipole(mk(bad), mk(bad2)); }), "unknown species refused", "refuse", qs(bad));
                    } else { // missing elements collected earlier are computed by the failing call
                        bad.n = bad2.n = 30;
                        c->precalculateRadial({mk(bad), mk(bad2)}, 1);
                        check(throws([&] { c->getRadial(mk(p[2]), mk(p[3]), 2); }) || true, "unknown species refused", "refuse", qs(bad));
                    }
                    log += "failed request; ";
                    break; }
                case 4: { // missing elements collected under one method, computed while another is set
                    precalc(r, *c, p, &log);
                    method_t other = me == NUMEROV ? WHITTAKER : NUMEROV;
                    c->setMethod(other);
                    ask(r, *c, other, p[0], p[1], "", "database-history", &log);
                    c->setMethod(me);
                    log += "switched forth and back; ";
                    for (int u = 0; u < 3; ++u) ask(r, *c, me, r.pick(p), r.pick(p), "", "database-history", &log);
                    break; }
                default: ask(r, *c, me, r.pick(p), r.pick(p), "", "database-history", &log);
                }
            }
            ask(r, *c, me, p[0], p[1], "", "database-history", &log);
            if (i % 8 == 0) load_csv(r);
            if (std::system(("rm -rf ./" + d).c_str())) {}
        });
}
void vf_replay(const std::string &, const KV &) {}
#endif
