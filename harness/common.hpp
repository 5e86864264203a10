// Shared driver of the bounded stand-ins: real code, generated inputs, direct oracles.
#pragma once
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
namespace vf {
struct Rng {
    std::mt19937_64 g;
    explicit Rng(uint64_t s) : g(s) {}
    int i(int lo, int hi) { return lo + static_cast<int>(g() % static_cast<uint64_t>(hi - lo + 1)); }
    double u(double lo = 0, double hi = 1) { return lo + (hi - lo) * ((g() >> 11) * (1. / 9007199254740992.)); }
    bool b() { return (g() >> 20) & 1; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[g() % v.size()]; }
};
struct Group {
    uint64_t evals = 0;
    std::set<size_t> distinct;
};
inline std::map<std::string, Group> &groups() { static std::map<std::string, Group> g; return g; }
inline std::map<std::string, int> &failcount() { static std::map<std::string, int> g; return g; }
// count one case of a group; `what` is the case written out
inline void hit(const std::string &group, const std::string &what) {
    auto &g = groups()[group];
    ++g.evals;
    g.distinct.insert(std::hash<std::string>{}(what));
}
inline std::string one_line(std::string s) {
    for (auto &c : s)
        if (c == '\n' || c == '\r') c = ' ';
    return s;
}
inline void fail(const std::string &key, const std::string &what) {
    if (++failcount()[key] <= 3) {
        std::printf("FAIL %s %s\n", key.c_str(), one_line(what).c_str());
        std::fflush(stdout);
    }
}
inline bool check(bool ok, const std::string &group, const std::string &key, const std::string &what) {
    hit(group, what);
    if (!ok) fail(key, what);
    return ok;
}
inline bool near(double a, double b, double rel = 1e-9, double abs = 1e-12) {
    if (std::isnan(a) || std::isnan(b)) return false;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
inline bool near(std::complex<double> a, std::complex<double> b, double rel = 1e-9, double abs = 1e-12) {
    return std::abs(a - b) <= abs + rel * std::max(std::abs(a), std::abs(b)) && !std::isnan(std::abs(a - b));
}
template <class... T> std::string str(const T &...t) {
    std::ostringstream s;
    s.precision(17);
    (void)std::initializer_list<int>{((s << t), 0)...};
    return s.str();
}
// run a case; an escaping exception is a failure of that case
inline void guard(const std::string &key, const std::string &what, const std::function<void()> &f) {
    try {
        f();
    } catch (const std::exception &e) {
        fail(key + "-throws", what + ": unexpected exception: " + e.what());
    } catch (...) {
        fail(key + "-throws", what + ": unexpected exception");
    }
}
template <class F> bool throws(F f) {
    try {
        f();
    } catch (...) {
        return true;
    }
    return false;
}
using KV = std::map<std::string, std::string>;
inline double num(const KV &kv, const std::string &k, double d = 0) {
    auto it = kv.find(k);
    if (it == kv.end()) return d;
    if (it->second == "True") return 1;
    if (it->second == "False") return 0;
    return std::atof(it->second.c_str());
}
// model strings are points of an order; give each its own string, in the same order
inline std::map<std::string, std::string> strings(const KV &kv, const std::string &suffix) {
    std::map<double, std::vector<std::string>> by;
    for (auto &p : kv)
        if (p.first.size() >= suffix.size() &&
            p.first.compare(p.first.size() - suffix.size(), suffix.size(), suffix) == 0)
            by[std::atof(p.second.c_str())].push_back(p.first);
    std::map<std::string, std::string> r;
    char c = 'A';
    for (auto &p : by) {
        for (auto &k : p.second) r[k] = std::string(1, c) + "x";
        ++c;
    }
    return r;
}
} // namespace vf
void vf_search(uint64_t seed, int n);
void vf_replay(const std::string &what, const vf::KV &kv);
#ifndef VF_NO_MAIN
int main(int argc, char **argv) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::string mode = argc > 1 ? argv[1] : "search";
    if (mode == "search") {
        vf_search(argc > 2 ? std::strtoull(argv[2], nullptr, 10) : 1, argc > 3 ? std::atoi(argv[3]) : 100);
    } else {
        vf::KV kv;
        for (int i = 3; i < argc; ++i) {
            std::string s = argv[i];
            auto p = s.find('=');
            if (p != std::string::npos) kv[s.substr(0, p)] = s.substr(p + 1);
        }
        vf_replay(argc > 2 ? argv[2] : "", kv);
    }
    for (auto &g : vf::groups())
        std::printf("STAT %s %llu %zu\n", g.first.c_str(), (unsigned long long)g.second.evals, g.second.distinct.size());
    std::puts("DONE");
    return 0;
}
#endif
