mk("s04-angular-sign", "S04",
   [("MatrixElementCache.cpp", "sgn = std::pow(-1, int(j1 - m1 + j2 - m2));", "sgn = std::pow(-1, int(j2 - m2 - j1 + m1 + kappa + 1));")],
   r'''#include "MatrixElementCache.hpp"
#include "State.hpp"
#include <cstdio>
#include <cmath>
int main() {
    int bad = 0;
    StateOne a("Rb", 30, 0, .5, .5), b("Rb", 30, 2, 1.5, .5), c("Rb", 31, 2, 2.5, 1.5);
    for (auto &p : {std::make_pair(a, b), std::make_pair(a, c), std::make_pair(b, a), std::make_pair(c, a)}) {
        MatrixElementCache x, y;
        double d = x.getElectricMultipole(p.first, p.second, 2);
        y.getElectricMultipole(p.second, p.first, 2);
        double e = y.getElectricMultipole(p.second, p.first, 2);
        // <a|T_q|b> = (-1)^q <b|T_-q|a>, q = m_a - m_b
        int q = std::lround(p.first.getM() - p.second.getM());
        std::printf("%g %g\n", d, e);
        if (std::fabs(d - (q % 2 ? -1 : 1) * e) > 1e-6 * std::fabs(d)) bad = 1;
    }
    return bad;
}
''', ["MatrixElementCache.cpp", "State.cpp", "QuantumDefect.cpp", "Wavefunction.cpp"],
   needs="an even multipole rank and a pair asked for in descending (j, m) order",
   breaks="the sign of the angular factor for pairs that are stored in swapped order")

mk("s05-method-in-key", "S05",
   [("MatrixElementCache.cpp", "    utils::hash_combine(seed, c.method);\n", ""),
    ("MatrixElementCache.cpp", "return (method == rhs.method) && (species == rhs.species) && (kappa == rhs.kappa) &&\n        (n == rhs.n) && (l == rhs.l) && (j == rhs.j);",
     "return (species == rhs.species) && (kappa == rhs.kappa) && (n == rhs.n) && (l == rhs.l) &&\n        (j == rhs.j);")],
   r'''#include "MatrixElementCache.hpp"
#include "State.hpp"
#include <cstdio>
int main() {
    StateOne a("Rb", 12, 0, .5, .5), b("Rb", 12, 1, .5, .5);
    MatrixElementCache x, y;
    x.getRadial(a, b, 1);
    x.setMethod(WHITTAKER);
    y.setMethod(WHITTAKER);
    double d = x.getRadial(a, b, 1), e = y.getRadial(a, b, 1);
    std::printf("%.12g %.12g\n", d, e);
    return d == e ? 0 : 1;
}
''', ["MatrixElementCache.cpp", "State.cpp", "QuantumDefect.cpp", "Wavefunction.cpp"],
   needs="the method is switched on a cache that already holds the element",
   breaks="a radial element computed with the other method is returned after the method is switched")

mk("s01-hash-minus-zero", "S01",
   [("State.cpp", "        ((state_array[0] == rhs.state_array[0]) && (state_array[1] < rhs.state_array[1]));\n}\nbool StateTwo::operator<=",
     "        (!(rhs.state_array[1] < state_array[1]) && (state_array[1] != rhs.state_array[1]) &&\n         (state_array[0].getHash() == rhs.state_array[0].getHash() ||\n          state_array[0].getReflected() == rhs.state_array[0]));\n}\nbool StateTwo::operator<=")],
   r'''#include "State.hpp"
#include <cstdio>
int main() {
    StateOne p("Rb", 50, 1, 1.5, .5), m("Rb", 50, 1, 1.5, -.5);
    StateTwo a(p, m), b(m, p);
    bool x = a < b, y = b < a;
    std::printf("%d %d\n", x, y);
    return x != y ? 0 : 1;
}
''', ["State.cpp", "MatrixElementCache.cpp", "QuantumDefect.cpp", "Wavefunction.cpp"],
   needs="two pair states whose first atoms are reflections of each other",
   breaks="the order of pair states is no longer asymmetric")

mk("s06-j-cap", "S06",
   [("QuantumDefect.cpp", "    ryd_j = std::min(j, ryd_max_j);", "    ryd_j = (l > ryd_max_l) ? ryd_max_j - (l + 0.5 - j) : std::min(j, ryd_max_j);")],
   r'''#include "QuantumDefect.hpp"
#include "SQLite.hpp"
#include <cstdio>
#include <cmath>
int main() {
    // above the largest tabulated l the rows of the largest l and its capped j apply
    QuantumDefect a("Rb", 50, 5, 4.5), b("Rb", 50, 3, 3.5);
    double d = 0;
    std::printf("%.12g %.12g\n", a.nstar, b.nstar);
    QuantumDefect g("Rb", 50, 20, 19.5), h("Rb", 50, 20, 20.5);
    std::printf("%.12g %.12g\n", g.nstar, h.nstar);
    return g.nstar == h.nstar ? 0 : 1;
}
''', ["QuantumDefect.cpp"],
   needs="a level with l above the largest tabulated l and j = l - 1/2",
   breaks="the capping of j at the largest tabulated j")
mk("s07-restore-unlocked", "S07",
   [("Cache.hpp", "        std::lock_guard<std::mutex> lock(cache_mutex);\n        auto cached_it = cache.find(key);\n        if (cached_it != cache.end()) {\n            return cached_it->second;\n        }\n        return std::nullopt;",
     "        typename cache_t::const_iterator cached_it, end;\n        {\n            std::lock_guard<std::mutex> lock(cache_mutex);\n            cached_it = cache.find(key);\n            end = cache.end();\n        }\n        if (cached_it != end) {\n            return cached_it->second;\n        }\n        return std::nullopt;")],
   r'''#include "Cache.hpp"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
static std::atomic<int> copying{0}, bad{0};
struct E {
    int v = 0;
    bool slow = false;
    E(int x) : v(x) {}
    E(const E &o) : v(o.v), slow(o.slow) {
        if (slow) {
            copying = 1;
            std::this_thread::sleep_for(std::chrono::milliseconds(200));
            copying = 0;
        }
    }
};
int main() {
    Cache<int, E> c;
    E e(1);
    e.slow = true;
    c.save(1, e);
    std::thread t([&] { c.restore(1); });
    while (!copying) std::this_thread::yield();
    c.clear(); // must wait for the copy of the element
    if (copying) bad = 1;
    t.join();
    std::printf("%d\n", (int)bad);
    return bad;
}
''', [],
   needs="a clear() between the lookup and the copy of the found element",
   breaks="restore copies the element after the lock has been released")
