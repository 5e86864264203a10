// Stand-in for the wignerSymbols library, which this sandbox does not have. The symbols are computed
// by GSL; assumed contract: same values as wignerSymbols (zero where the triangle rules fail).
#ifndef VERIF_WIGNER_STUB
#define VERIF_WIGNER_STUB
#include <cmath>
#include <cstdlib>
#include <gsl/gsl_sf_coupling.h>
namespace WignerSymbols {
inline int vf_two(double x) { return static_cast<int>(std::lround(2 * x)); }
inline double wigner3j(double a, double b, double c, double d, double e, double f) {
    if (a < 0 || b < 0 || c < 0)
        return 0;
    return gsl_sf_coupling_3j(vf_two(a), vf_two(b), vf_two(c), vf_two(d), vf_two(e), vf_two(f));
}
inline double wigner6j(double a, double b, double c, double d, double e, double f) {
    if (a < 0 || b < 0 || c < 0 || d < 0 || e < 0 || f < 0)
        return 0;
    return gsl_sf_coupling_6j(vf_two(a), vf_two(b), vf_two(c), vf_two(d), vf_two(e), vf_two(f));
}
} // namespace WignerSymbols
#endif
