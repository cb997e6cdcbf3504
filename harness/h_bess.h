// utils.cpp with the Bessel functions (and the multipole Phi) replaced by
// monomials with symbolic coefficients; include in exactly one translation unit.
#pragma once
#include "utils.h"
#include <math.h>
#include "erfc_expn.h"
namespace helfem { namespace math { template <typename T> T renamed_il(T r, int L) { return bessel_il<T>(r, L); } template <typename T> T renamed_kl(T r, int L) { return bessel_kl<T>(r, L); } } }
#define bessel_il renamed_il
#define bessel_kl renamed_kl
#include "utils.cpp"
#undef bessel_il
#undef bessel_kl
static double il0 = 1, il1 = 0.3, kl0 = 1, ph0 = 1, ph1 = 0.2;
namespace helfem {
namespace utils {
template <typename T> T bessel_il(T r, int L) { T p = T(il0); for (int i = 0; i < L; i++) p *= r; return p + T(il1) * p * r * r; }
template <typename T> T bessel_kl(T r, int L) { T p = T(kl0); for (int i = 0; i <= L; i++) p /= r; return p; }
template double bessel_il<double>(double, int); template long double bessel_il<long double>(long double, int);
template double bessel_kl<double>(double, int); template long double bessel_kl<long double>(long double, int);
}
namespace erfc_expn {
template <typename T> T Phi(unsigned int n, T X, T x) { T p = T(ph0); for (unsigned i = 0; i < n; i++) p *= X * x; return p * (X + x) + T(ph1); }
template double Phi<double>(unsigned int, double, double); template long double Phi<long double>(unsigned int, long double, long double);
}
}
