// S06: quantum defects of generated databases, asked for in interleaved order, against the formula
#include "common.hpp"
#include "QuantumDefect.hpp"
#include "Constants.hpp"
#include "MatrixElementCache.hpp"
#include "State.hpp"
#include <atomic>
#include <fstream>
#include <mutex>
#include <thread>
using namespace vf;
struct Pot { double ac; int Z; double a1, a2, a3, a4, rc; };
struct Ryd { double d[5], ry; };
struct Db {
    std::string path;
    std::map<std::pair<std::string, int>, Pot> pot;
    std::map<std::string, std::map<int, std::map<double, Ryd>>> ryd;
};
static Db make(Rng &r, int id) {
    Db d;
    d.path = str("db", id, ".sql");
    std::ofstream f(d.path);
    f.precision(17);
    f << "BEGIN TRANSACTION;\nDROP TABLE IF EXISTS `model_potential`;\nCREATE TABLE `model_potential` ( `element` text,`L` int,`ac` real,`Z` int,`a1` real,`a2` real,`a3` real,`a4` real,`rc` real);\n";
    f << "DROP TABLE IF EXISTS `rydberg_ritz`;\nCREATE TABLE `rydberg_ritz` ( `element` text,`L` int,`J` real,`d0` real,`d2` real,`d4` real,`d6` real,`d8` real,`Ry` real);\n";
    for (auto &sp : {std::string("Rb"), std::string("Cs"), std::string("Sr1")}) {
        double s = sp == "Sr1" ? 0 : .5;
        int lp = r.i(0, 3), lr = r.i(0, 4);
        for (int l = 0; l <= lp; ++l) {
            if (r.i(0, 9) == 0) continue;
            Pot p{r.u(0, 20), r.i(1, 80), r.u(-5, 5), r.u(-5, 5), r.u(-9, 9), r.u(-1, 1), r.u(1, 5)};
            d.pot[{sp, l}] = p;
            f << "INSERT INTO `model_potential` VALUES('" << sp << "'," << l << ",'" << p.ac << "'," << p.Z << ",'" << p.a1 << "','" << p.a2 << "','" << p.a3 << "','" << p.a4 << "','" << p.rc << "');\n";
        }
        for (int l = lr; l >= 0; --l)
            for (double j = l + s; j >= std::fabs(l - s); j -= 1) {
                if (r.i(0, 9) == 0) continue;
                Ryd x{{r.u(0, 4), r.u(-1, 1), r.u(-3, 3), r.u(-20, 20), r.u(-100, 100)}, r.u(109000, 110000)};
                d.ryd[sp][l][j] = x;
                f << "INSERT INTO `rydberg_ritz` VALUES('" << sp << "'," << l << ",'" << j << "'";
                for (double v : x.d) f << ",'" << v << "'";
                f << ",'" << x.ry << "');\n";
            }
    }
    f << "COMMIT;\n";
    return d;
}
static bool expect(const Db &d, const std::string &sp, int n, int l, double j, Pot &p, double &ns, double &en) {
    int lp = -1;
    for (auto &k : d.pot)
        if (k.first.first == sp) lp = std::max(lp, k.first.second);
    auto ip = d.pot.find({sp, std::min(l, lp)});
    auto is = d.ryd.find(sp);
    if (lp < 0 || ip == d.pot.end() || is == d.ryd.end() || is->second.empty()) return false;
    int lr = std::min(l, is->second.rbegin()->first);
    auto il = is->second.find(lr);
    if (il == is->second.end() || il->second.empty()) return false;
    auto ij = il->second.find(std::min(j, il->second.rbegin()->first));
    if (ij == il->second.end()) return false;
    const Ryd &x = ij->second;
    long double q = n - static_cast<long double>(x.d[0]), del = x.d[0];
    for (int i = 1; i < 5; ++i) del += x.d[i] / powl(q, 2 * i);
    p = ip->second;
    ns = n - del;
    en = -.5L * x.ry / 109737.31568525L / ((n - del) * (n - del)) * 6579683.920757349L;
    return true;
}
static void one(const Db &d, const std::string &sp, int n, int l, double j, const std::string &hist) {
    Pot p;
    double ns, en;
    std::string w = str(hist, " ", d.path, " ", sp, " n=", n, " l=", l, " j=", j);
    bool ok = expect(d, sp, n, l, j, p, ns, en);
    try {
        QuantumDefect q(sp, n, l, j, d.path);
        QuantumDefect c(q);
        check(ok, "levels", "missing-level", w + ": accepted");
        if (!ok) return;
        check(q.ac == p.ac && q.Z == p.Z && q.a1 == p.a1 && q.a2 == p.a2 && q.a3 == p.a3 && q.a4 == p.a4 && q.rc == p.rc, "levels", "potential", w);
        check(near(q.nstar, ns, 1e-8), "levels", "nstar", str(w, ": ", q.nstar, " expected ", ns));
        check(near(q.energy, en, 1e-7), "levels", "energy", str(w, ": ", q.energy, " expected ", en));
        auto in = [&](const double &x) { return (const char *)&x >= (const char *)&c && (const char *)&x < (const char *)(&c + 1); };
        check(in(c.energy) && in(c.ac) && in(c.nstar) && c.energy == q.energy && c.nstar == q.nstar && c.rc == q.rc, "copies", "copy", w);
        check(q.species == sp && q.n == n && q.l == l && q.j == j, "levels", "arguments", w);
        check(near(energy_level(sp, n, l, j, d.path), en, 1e-7) && near(nstar(sp, n, l, j, d.path), ns, 1e-8), "levels", "free-functions", w);
        // the states that users ask
        static MatrixElementCache cache;
        cache.setDefectDB(d.path);
        float m = j - int(n % (int(2 * j) + 1));
        StateOne a(sp, n, l, j, m);
        check(near(a.getEnergy(cache), en, 1e-7) && near(a.getNStar(cache), ns, 1e-8), "states", "state", w);
        check(a.getS() == (sp == "Sr1" ? 0.f : .5f) && a.getElement() == (sp == "Sr1" ? "Sr" : sp), "states", "spin", w);
        StateTwo b(a, StateOne(sp, n, l, j, -m));
        check(near(b.getEnergy(cache), 2 * en, 2e-7) && near(b.getNStar(1, cache), ns, 1e-8), "states", "pair", w);
        if (n % 5 == 0 && sp == "Rb") {
            StateOne e("Rb", 30 + n, l, j, m);
            check(e.getEnergy() == energy_level("Rb", 30 + n, l, j) && e.getNStar() == nstar("Rb", 30 + n, l, j), "states", "embedded", w);
        }
    } catch (const std::exception &e) {
        check(!ok, "levels", "missing-level", w + ": refused: " + e.what());
    }
}
static void q(Rng &r, std::string &sp, int &n, int &l, double &j) {
    sp = r.pick<std::string>({"Rb", "Cs", "Sr1", "Sr1", "Xx"});
    n = r.i(8, 90);
    l = r.i(0, 6);
    double s = sp == "Sr1" ? 0 : .5;
    j = std::fabs(l + (r.b() ? s : -s));
}
void vf_search(uint64_t seed, int n) {
    Rng r(seed);
    std::vector<Db> dbs;
    for (int i = 0; i < n; ++i) {
        while (dbs.size() < 3) dbs.push_back(make(r, 100 * i + dbs.size()));
        std::string h = str("round ", i);
        int cur = 0;
        std::string sp;
        int nn, l;
        double j;
        for (int k = 0; k < 12; ++k) {
            if (r.b()) cur = r.i(0, 2);
            if (k == 0 || r.i(0, 2)) q(r, sp, nn, l, j); // else: the same level of another database
            one(dbs[cur], sp, nn, l, j, h);
            if (r.i(0, 5) == 0) {
                hit("files", h);
                if (!throws([&] { QuantumDefect x(sp, nn, l, j, str("nothing", i, "_", k, ".sql")); })) fail("missing-file", str(h, " a database file that does not exist gives a level of ", dbs[cur].path));
            }
        }
        // the embedded database under both spellings
        QuantumDefect a("Rb", 45, 1, .5), b("Rb", 45, 1, .5, "");
        check(a.energy == b.energy && a.nstar == b.nstar && a.Z == 37, "embedded", "embedded", h);
        if (i % 20 == 0) {
            // several threads, several databases, first touch of many levels
            std::atomic<int> bad{0};
            std::string what;
            std::mutex m;
            std::vector<std::thread> ts;
            for (int t = 0; t < 4; ++t)
                ts.emplace_back([&, t] {
                    for (int k = 0; k < 60; ++k) {
                        const Db &d = dbs[(i / 20 + t / 2 * (i % 40 != 0)) % 3];
                        Pot p;
                        double ns, en;
                        int nn = 10 + k;
                        if (!expect(d, "Cs", nn, 1, .5, p, ns, en)) continue;
                        try {
                            double e = energy_level("Cs", nn, 1, .5, d.path);
                            if (near(e, en, 1e-7)) continue;
                            std::lock_guard<std::mutex> g(m);
                            what = str("n=", nn, " energy ", e, " of ", d.path, " expected ", en);
                        } catch (const std::exception &x) {
                            std::lock_guard<std::mutex> g(m);
                            what = str("n=", nn, " of ", d.path, ": ", x.what());
                        }
                        ++bad;
                    }
                });
            for (auto &t : ts) t.join();
            check(bad == 0, "threads", "threads", str(h, " four threads: ", what));
        }
        std::remove(dbs.front().path.c_str());
        dbs.erase(dbs.begin());
    }
}
void vf_replay(const std::string &, const KV &) { vf_search(1, 60); }
