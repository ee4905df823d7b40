// Stand-in for joeydumont/wignerSymbols (not available offline): Wigner 3j/6j symbols from GSL.
#ifndef VERIF_WIGNER_SHIM
#define VERIF_WIGNER_SHIM
#include <cmath>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_sf_coupling.h>
namespace WignerSymbols {
inline int twice(double x) { return static_cast<int>(std::lround(2 * x)); }
inline double wigner3j(double l1, double l2, double l3, double m1, double m2, double m3) {
    gsl_set_error_handler_off();
    return gsl_sf_coupling_3j(twice(l1), twice(l2), twice(l3), twice(m1), twice(m2), twice(m3));
}
inline double wigner6j(double l1, double l2, double l3, double l4, double l5, double l6) {
    gsl_set_error_handler_off();
    return gsl_sf_coupling_6j(twice(l1), twice(l2), twice(l3), twice(l4), twice(l5), twice(l6));
}
} // namespace WignerSymbols
#endif
