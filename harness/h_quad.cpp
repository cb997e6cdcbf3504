// Quadrature rules.
#include "hutil.h"
#include <lobatto.h>
#include <chebyshev.h>
#include "angular.h"
using namespace helfem;
void sym_main() {
  std::string what = cfgs("what", "lobatto");
  int n = cfg("n", 5);
  VecD x, w;
  std::vector<double> c;
  auto coef = [&](int deg) { for (int i = 0; i <= deg; i++) c.push_back(sym_real(S("c%d", i), -1, 1, 0.5 - 0.13 * i)); };
  auto poly = [&](double t) { double v = 0; for (int i = (int)c.size() - 1; i >= 0; i--) v = v * t + c[i]; return v; };
  auto exact = [&](double a, double b) { double v = 0; for (size_t i = 0; i < c.size(); i++) v += c[i] * (ipow(b, i + 1) - ipow(a, i + 1)) / (i + 1); return v; };
  if (what == "lobatto") {
    lobatto::lobatto_compute<double>(n, x, w); coef(std::max(2 * n - 3, 0));
    sym_assert(x.size() == n && w.size() == n, "size"); if (x.size() != n) return;
    double s = 0; for (int i = 0; i < n; i++) s += w(i) * poly(x(i));
    sym_near(s, exact(-1, 1), 1e-10, "exact for polynomials up to degree 2n-3");
    double a = sym_real("a", -3, 3, 0.4), h = sym_real("h", 0.1, 2, 0.7), t = 0, e = 0; if (c.size() > 4) c.resize(4);
    for (int i = 0; i < n; i++) t += w(i) * h * poly(a + h * x(i));
    e = 0; for (size_t k = 0; k < c.size(); k++) { double up = 1, dn = 1; for (size_t q = 0; q <= k; q++) { up *= a + h; dn *= a - h; } e += c[k] * (up - dn) / (k + 1); }
    if (2 * n - 3 >= (int)c.size() - 1) sym_near(t, e, 1e-8, "on any interval");
    sym_near(x(0), -1, 0, "left end point"); sym_near(x(n - 1), 1, 0, "right end point");
    for (int i = 0; i + 1 < n; i++) sym_assert(x(i) < x(i + 1), "ascending nodes");
    for (int i = 0; i < n; i++) { sym_assert(w(i) > 0, "positive weights"); sym_near(x(i), -x(n - 1 - i), 1e-13, "symmetric nodes"); sym_near(w(i), w(n - 1 - i), 1e-13, "symmetric weights"); }
  } else if (what == "bad") {
    for (int k : {1, 0, -3}) { bool t = false; try { lobatto::lobatto_compute<double>(k, x, w); } catch (std::runtime_error &) { t = true; } sym_assert(t, "too small orders rejected"); }
  } else if (what == "cheb") {
    chebyshev::chebyshev<double>(n, x, w); VecD x2, w2; chebyshev::chebyshev(n, x2, w2);
    sym_assert(x.size() == n && w.size() == n, "size"); if (x.size() != n) return;
    double f = sym_real("f", -1, 1, 0.5), s = 0;
    for (int i = 0; i < n; i++) s += w(i) * f;
    if (n >= 2) sym_near(s, 2 * f, 1e-11, "weights add up to the interval length");
    for (int i = 0; i < n; i++) {
      // Perez-Jorda, Becke, San-Fabian transformation of the trapezoid rule
      double t = M_PI * (n - i) / (n + 1), z = 1 - 2 * t / M_PI + (2 / M_PI) * (1 + 2.0 / 3 * std::sin(t) * std::sin(t)) * std::cos(t) * std::sin(t);
      sym_near(x(i), z, 1e-13, "node"); sym_near(w(i), 16.0 / 3 / (n + 1) * std::pow(std::sin(t), 4), 1e-13, "weight");
      sym_near(x2(i), x(i), 0, "same nodes from both interfaces"); sym_near(w2(i), w(i), 0, "same weights from both interfaces");
      if (i) sym_assert(x(i) > x(i - 1), "ascending nodes"); sym_assert(w(i) > 0 && std::fabs(x(i)) < 1, "inside the interval");
    }
    coef(cfg("deg", 6)); s = 0; for (int i = 0; i < n; i++) s += w(i) * poly(x(i));
    if (n >= 16) sym_near(s, exact(-1, 1), std::max(1e-9, 5e4 * std::pow(n, -10.0)), "converges for smooth functions");
  } else if (what == "radcheb") {
    VecD r, wr; chebyshev::radial_chebyshev<double>(n, r, wr); VecD r2, w2; chebyshev::radial_chebyshev(n, r2, w2);
    chebyshev::chebyshev<double>(n, x, w);
    double f = sym_real("f", -1, 1, 0.5), s = 0, e = 0;
    for (int i = 0; i < n; i++) { sym_near(r(i), std::log2(2 / (1 - x(i))), 1e-12, "radius"); sym_near(wr(i), w(i) / (std::log(2.0) * (1 - x(i))), 1e-12, "radial weight"); sym_near(r2(i), r(i), 0, "same radii from both interfaces"); sym_near(w2(i), wr(i), 0, "same weights from both interfaces"); if (i) sym_assert(r(i) > r(i - 1), "ascending radii"); sym_assert(r(i) > 0 && wr(i) > 0, "positive"); }
    std::vector<double> g; for (int k = 0; k < 5; k++) g.push_back(sym_real(S("g%d", k), -1, 1, 0.3 * k - 0.4));
    for (int k = 0; k < 5; k++) { double a = 0.7 + 0.4 * k; e += g[k] * 2 / (a * a * a); for (int i = 0; i < n; i++) s += g[k] * wr(i) * r(i) * r(i) * std::exp(-a * r(i)); }
    if (n >= 60) sym_near(s, e, n >= 100 ? 1e-6 : 1e-5, "integrates decaying densities"); sym_near(f, f, 0, "");
  } else if (what == "ang") {
    int cheb = cfg("cheb", 0), m = cfg("m", n);
    VecD cth, phi, wa; 
    if (cfg("one", 0)) { if (cheb) angular::angular_chebyshev(n, cth, phi, wa); else angular::angular_lobatto(n, cth, phi, wa); m = n; }
    else { if (cheb) angular::angular_chebyshev(n, m, cth, phi, wa); else angular::angular_lobatto(n, m, cth, phi, wa); }
    sym_assert(cth.size() == n * m && phi.size() == n * m && wa.size() == n * m, "size"); if (cth.size() != n * m || phi.size() != n * m || wa.size() != n * m) return;
    int deg = cheb ? 4 : 2 * n - 3; double s = 0, e = 0;
    for (int k = 0; k <= deg; k++) for (int q = 0; q < m; q++) { double a = sym_real(S("a%d_%d", k, q), -1, 1, 0.2 - 0.03 * k + 0.05 * q), b = sym_real(S("b%d_%d", k, q), -1, 1, 0.1 + 0.03 * k - 0.05 * q); for (int i = 0; i < cth.size(); i++) s += wa(i) * ipow(cth(i), k) * (a * std::cos(q * phi(i)) + b * std::sin(q * phi(i))); if (q == 0 && k % 2 == 0) e += a * 4 * M_PI / (k + 1); }
    sym_near(s, e, cheb ? 1e-4 : 1e-9, "integrates spherical polynomials");
    // product structure covers the whole sphere
    for (int i = 0; i < cth.size(); i++) { sym_assert(std::fabs(cth(i)) <= 1 && phi(i) >= 0 && phi(i) < 2 * M_PI && wa(i) > 0, "on the sphere"); for (int j = 0; j < i; j++) sym_assert(cth(i) != cth(j) || phi(i) != phi(j), "distinct points"); }
  } else if (what == "comp") {  // compound rule of symbolic polar rule
    int m = cfg("m", 3); VecD x0(n), w0(n), cth, phi, wa; double W = 0, C = 0, Sn = 0, ref = 0;
    for (int i = 0; i < n; i++) { x0(i) = sym_real(S("x%d", i), -1, 1, 0.2 * i - 0.4); w0(i) = sym_real(S("w%d", i), 0, 1, 0.1 * i + 0.1); W += w0(i); ref += w0(i) * x0(i); }
    angular::compound_rule(x0, w0, m, cth, phi, wa);
    double s = 0, sx = 0; for (int i = 0; i < wa.size(); i++) { s += wa(i); sx += wa(i) * cth(i); C += wa(i) * cth(i) * std::cos(phi(i)); Sn += wa(i) * cth(i) * std::sin(phi(i)); }
    sym_near(s, 2 * M_PI * W, 1e-10, "total weight"); sym_near(sx, 2 * M_PI * ref, 1e-10, "first moment"); if (m > 1) { sym_near(C, 0, 1e-10, "cosine integrates to zero"); sym_near(Sn, 0, 1e-10, "sine integrates to zero"); }
  }
}
