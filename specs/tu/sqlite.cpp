// instantiates the statement accessors and a range-for over a statement
#include "SQLite.hpp"
template <class F>
int visit(sqlite::statement &s, F f) {
    int n = 0;
    for (auto &&r : s) {
        f(r);
        ++n;
    }
    return n;
}
int rows(sqlite::statement &s) {
    int n = 0;
    for (auto &&r : s) {
        (void)r;
        ++n;
    }
    return n;
}
double f0(sqlite::statement &s) { return s.get<double>(0); }
int f1(sqlite::statement &s) { return s.get<int>(0); }
std::string f2(sqlite::statement &s) { return s.get<std::string>(0); }
