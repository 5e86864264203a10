// instantiates the value operators so that they are extracted
#include <cstddef>
#include <string>
using std::size_t;
#include "ConfParser.hpp"
void use(Configuration &c, Configuration const &d) {
    std::string k, s;
    int i = 1;
    size_t n = 2;
    double x = 3;
    float f = 4;
    c[k] << i;
    c[k] << n;
    c[k] << x;
    c[k] << f;
    c[k] << s;
    c[k] << "x";
    c[k] << d[k];
    c[k] >> i;
    c[k] >> n;
    c[k] >> x;
    c[k] >> f;
    c[k] >> s;
    d[k] >> i;
    d[k] >> s;
    c += d;
    i = c == d;
}
