// Configurations against a plain map of texts, with awkward keys and values.
#include <cstddef>
#include <string>
using std::size_t;
#include "common.hpp"
#include "ConfParser.hpp"
#include <cstdio>
#include <unistd.h>
using namespace vf;
typedef std::map<std::string, std::string> M;
static const std::vector<std::string> pieces = {"a",  "b",   "species1", ".",    "..",  "a.b", "/",    " ",  "\"", "\\", "\n",
                                                "\t", "\x01", "\xc3\xa9", "\xe2\x82\xac", "\x7f", "{", "}", "[", "0", "-1.5", "true", ":", ","};
static std::string text(Rng &r, bool key) {
    std::string s;
    int n = r.i(r.i(0, 7) == 0 ? 0 : 1, key ? 3 : 4);
    for (int i = 0; i < n; ++i) s += r.pick(pieces);
    return s;
}
static Configuration make(const M &m, Rng &r) {
    Configuration c;
    for (auto &p : m) {
        if (r.b()) c[p.first] << "something else";
        c[p.first] << p.second;
    }
    return c;
}
static M read(const Configuration &c) {
    M m;
    for (auto const &p : c) m[p.first] = p.second.str();
    return m;
}
static std::string show(const M &m) {
    std::string s;
    for (auto &p : m) {
        for (char ch : p.first + "=" + p.second + ";") {
            char b[8];
            if (ch < 32 || ch == 127) {
                std::snprintf(b, 8, "\\x%02x", static_cast<unsigned char>(ch));
                s += b;
            } else s += ch;
        }
    }
    return s;
}
static M gen(Rng &r) {
    M m;
    int n = r.i(0, 5);
    for (int i = 0; i < n; ++i) m[text(r, true)] = text(r, false);
    return m;
}
static std::string filename() {
    const char *t = std::getenv("VF_SCRATCH");
    return std::string(t ? t : "/tmp") + "/conf" + std::to_string(getpid()) + ".json";
}
template <class T>
static void number(T x, const char *what) {
    Configuration c;
    c["k"] << x;
    T y{}, z{};
    c["k"] >> y;
    Configuration const d = c;
    d["k"] >> z;
    check(y == x && z == x, "numbers", str("number-", what), str(what, " ", x, " reads back as ", y, " and ", z));
}
void vf_search(uint64_t seed, int n) {
    Rng r(seed);
    auto file = filename();
    for (int i = 0; i < n; ++i) {
        M a = gen(r), b = gen(r);
        if (r.b())
            for (auto &p : a)
                if (r.b()) b[p.first] = r.b() ? p.second : text(r, false);
        Configuration c = make(a, r), d = make(b, r);
        check(read(c) == a && c.size() == a.size(), "content", "content", show(a));
        check((c == d) == (a == b) && (d == c) == (a == b), "comparison", "compare", show(a) + " and " + show(b));
        {
            M x = a;
            if (!x.empty() && r.b()) x.begin()->second += "x";
            else x[text(r, true)] = text(r, false);
            check((c == make(x, r)) == (a == x), "comparison", "compare", show(a) + " and " + show(x));
            check(c == make(a, r), "comparison", "compare-same", show(a));
        }
        std::string k = r.b() && !a.empty() ? std::next(a.begin(), r.i(0, a.size() - 1))->first : text(r, true);
        bool has = a.count(k) != 0;
        Configuration const &cc = c;
        bool thrown = false;
        std::string got;
        try {
            got = cc[k].str();
        } catch (std::out_of_range &) { thrown = true; }
        check(c.count(k) == has && (c.find(k) != c.end()) == has && (cc.find(k) != cc.end()) == has && thrown == !has &&
                  (!has || (got == a[k] && c.find(k)->second.str() == a[k])),
              "lookup", "lookup", show({{k, ""}}) + " in " + show(a));
        check(read(c) == a, "lookup", "lookup-changes", show(a));
        Configuration s = c;
        s += d;
        M sum = b;
        sum.insert(a.begin(), a.end());
        check(read(s) == sum && read(d) == b, "sum", "sum", show(a) + " += " + show(b));
        Configuration self = c;
        self += self;
        check(read(self) == a, "sum", "self-sum", show(a));
        // save, then load into an empty and into a filled configuration
        try {
            c.save_to_json(file);
            Configuration l;
            l.load_from_json(file);
            check(read(l) == a && l == c, "save and load", "json", show(a) + " loads as " + show(read(l)));
            Configuration f = d;
            f.load_from_json(file);
            M over = a;
            over.insert(b.begin(), b.end());
            check(read(f) == over, "save and load", "json-into", show(a) + " into " + show(b));
            check(read(c) == a, "save and load", "json-changes", show(a));
        } catch (std::exception &e) {
            fail("json-throws", str(show(a), ": ", e.what()));
        }
        number(r.i(-2147483647, 2147483647), "int");
        number<size_t>(static_cast<size_t>(r.g()), "size_t");
        double x = r.i(-99999, 99999) * std::pow(10., r.i(-20, 20));
        Configuration e;
        e["x"] << x;
        double y;
        e["x"] >> y;
        check(near(x, y, 1e-5, 0), "numbers", "number-double", str(x, " reads back as ", y));
    }
    number(-2147483647 - 1, "int");
    number(2147483647, "int");
    number<size_t>(~size_t(0), "size_t");
    number(0, "int");
    unlink(file.c_str());
}
void vf_replay(const std::string &, const KV &) { vf_search(1, 200); }
