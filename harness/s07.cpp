// S07: the shared cache against a reference map, and its lock
#include "common.hpp"
#include "Cache.hpp"
#include <atomic>
#include <chrono>
#include <thread>
using namespace vf;
struct Bad { size_t operator()(int k) const { return k % 3; } };
template <class K, class V, class H> static void seq(Rng &r, const std::vector<K> &keys, const std::vector<V> &vals) {
    Cache<K, V, H> c;
    std::map<K, V> m;
    std::string w;
    int n = r.i(1, 25);
    for (int i = 0; i < n; ++i) {
        const K &k = r.pick(keys);
        const V &v = r.pick(vals);
        int op = r.i(0, 9);
        if (op < 4) {
            w += str(" save(", k, ",", v, ")");
            bool t = throws([&] { c.save(k, v); });
            check(t == (m.count(k) > 0), "cache operation sequence", "save-outcome", w);
            m.emplace(k, v);
        } else if (op < 9) {
            w += str(" restore(", k, ")");
            auto o = c.restore(k);
            auto it = m.find(k);
            check(static_cast<bool>(o) == (it != m.end()) && (!o || *o == it->second), "cache operation sequence", "restore-value", w);
        } else {
            w += " clear";
            c.clear();
            m.clear();
        }
    }
    for (auto &k : keys) {
        auto o = c.restore(k);
        check(static_cast<bool>(o) == (m.count(k) > 0) && (!o || *o == m[k]), "cache operation sequence", "restore-value", w + str(" final ", k));
    }
}
// one thread is held inside the cache (in the hash of its key); the other one must not get through meanwhile
static std::atomic<bool> hold{false}, inside{false}, other_done{false};
static thread_local bool holder = false;
struct Held {
    size_t operator()(int k) const {
        if (holder && hold) {
            inside = true;
            for (int i = 0; i < 150 && !other_done; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
            hold = false;
        }
        return k;
    }
};
static void excl(int a, int b) {
    static const char *nm[] = {"save", "restore", "clear"};
    Cache<int, int, Held> c;
    c.save(1, 10);
    c.save(2, 20);
    hold = true;
    inside = other_done = false;
    bool through = false;
    std::thread t1([&] {
        holder = true;
        if (a == 0) c.save(3, 30);
        else c.restore(1);
    });
    std::thread t2([&] {
        while (!inside) std::this_thread::yield();
        if (b == 0) c.save(4, 40);
        else if (b == 1) c.restore(2);
        else c.clear();
        through = hold;
        other_done = true;
    });
    t1.join();
    t2.join();
    check(!through, "exclusion", str("exclusion-", nm[b]), str(nm[b], " gets through while another thread is inside ", nm[a]));
}
// an element is held while it is copied out: nothing may change the cache meanwhile
struct Slow {
    int v;
    Slow(int x) : v(x) {}
    Slow(const Slow &o) : v(o.v) {
        if (holder && hold) {
            inside = true;
            for (int i = 0; i < 150 && !other_done; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
            hold = false;
        }
    }
};
static void excl_copy(int b) {
    static const char *nm[] = {"save", "restore", "clear"};
    Cache<int, Slow> c;
    c.save(1, Slow(10));
    c.save(2, Slow(20));
    hold = true;
    inside = other_done = false;
    bool through = false;
    std::thread t1([&] {
        holder = true;
        c.restore(1);
    });
    std::thread t2([&] {
        while (!inside) std::this_thread::yield();
        if (b == 0) c.save(4, Slow(40));
        else c.clear();
        through = hold;
        other_done = true;
    });
    t1.join();
    t2.join();
    check(!through, "exclusion", str("exclusion-copy-", nm[b]), str(nm[b], " gets through while restore copies the element it found"));
}
void vf_search(uint64_t seed, int n) {
    Rng r(seed);
    for (int a = 0; a < 2; ++a)
        for (int b = 0; b < 3; ++b) excl(a, b);
    excl_copy(0);
    excl_copy(2);
    for (int i = 0; i < n; ++i) {
        seq<int, int, std::hash<int>>(r, {0, 1, 2, -1, 7}, {0, 1, 2, 3});
        seq<int, int, Bad>(r, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, {0, 1, 2});
        seq<std::string, double, std::hash<std::string>>(r, {"", "a", "ab", "ba"}, {0., -1.5, 2.});
    }
    // many threads, disjoint and common keys: every thread gets back a value some thread stored
    for (int i = 0; i < n / 50; ++i) {
        Cache<int, int> c;
        std::vector<std::thread> ts;
        std::atomic<int> wrong{0}, saved{0};
        for (int t = 0; t < 4; ++t)
            ts.emplace_back([&, t] {
                for (int k = 0; k < 200; ++k) {
                    if (auto o = c.restore(k)) {
                        if (*o != 3 * k) ++wrong;
                    } else {
                        try {
                            c.save(k, 3 * k);
                            ++saved;
                        } catch (...) {
                        }
                    }
                    c.save(1000 * (t + 1) + k, k);
                    auto o = c.restore(1000 * (t + 1) + k);
                    if (!o || *o != k) ++wrong;
                }
            });
        for (auto &t : ts) t.join();
        check(wrong == 0 && saved == 200, "four threads", "threads", str("round ", i, " wrong ", wrong, " saved ", saved));
    }
}
void vf_replay(const std::string &, const KV &) { vf_search(1, 200); }
