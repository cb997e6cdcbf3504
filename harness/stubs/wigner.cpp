#include "wignernj.hpp"
#include <algorithm>
#include <cmath>
#include <cstdlib>
double (*wignernj_hook)(int, int, int, int, int, int) = nullptr;
static long double F(int n) { return n < 0 ? 0 : tgammal(n + 1.0L); }
static long double w3j(int a, int b, int c, int al, int be, int ga) {
  if (al + be + ga || c < std::abs(a - b) || c > a + b || std::abs(al) > a || std::abs(be) > b || std::abs(ga) > c) return 0;
  long double s = 0;
  for (int k = 0; k <= a + b + c; k++) {
    int d[6] = {k, c - b + k + al, c - a + k - be, a + b - c - k, a - k - al, b - k + be};
    bool ok = true; long double t = (k & 1) ? -1 : 1;
    for (int i = 0; i < 6; i++) { if (d[i] < 0) { ok = false; break; } t /= F(d[i]); }
    if (ok) s += t;
  }
  long double del = F(a + b - c) * F(a - b + c) * F(b + c - a) / F(a + b + c + 1);
  s *= sqrtl(del * F(a + al) * F(a - al) * F(b + be) * F(b - be) * F(c + ga) * F(c - ga));
  return (std::abs(a - b - ga) & 1) ? -s : s;
}
double wignernj_exact(int l1, int m1, int l2, int m2, int l3, int m3) {
  if ((l1 + l2 + l3) & 1) return 0;
  return (double)(sqrtl((2 * l1 + 1) * (2 * l2 + 1) * (2 * l3 + 1) / (4 * M_PIl)) * w3j(l1, l2, l3, 0, 0, 0) * w3j(l1, l2, l3, m1, m2, m3));
}
