// Stand-in for the (absent) libwignernj: Gaunt coefficients by Racah's formula,
// or from a symbolic table when the harness installs one.
#pragma once
extern double (*wignernj_hook)(int l1, int m1, int l2, int m2, int l3, int m3);
double wignernj_exact(int l1, int m1, int l2, int m2, int l3, int m3);
namespace wignernj {
template <typename T> T gaunt(int tl1, int tm1, int tl2, int tm2, int tl3, int tm3) { return T((wignernj_hook ? wignernj_hook : wignernj_exact)(tl1 / 2, tm1 / 2, tl2 / 2, tm2 / 2, tl3 / 2, tm3 / 2)); }
}
