// Special functions: Legendre functions, spherical harmonics, modified
// spherical Bessel functions and the multipoles of erfc(r12)/r12.
#include "hutil.h"
#include "legendre/Legendre.h"
#include "spherical_harmonics.h"
#include "erfc_expn.h"
#include "utils.h"
#include <map>
using namespace helfem;
typedef std::vector<double> Poly;  // coefficients, lowest first
static Poly legp(int l) { Poly a{1}, b{0, 1}; if (l == 0) return a; for (int k = 1; k < l; k++) { Poly c(k + 2, 0.0); for (size_t i = 0; i < b.size(); i++) c[i + 1] += (2 * k + 1) * b[i] / (k + 1); for (size_t i = 0; i < a.size(); i++) c[i] -= k * a[i] / (k + 1); a = b; b = c; } return b; }
static Poly der(const Poly &p) { Poly d; for (size_t i = 1; i < p.size(); i++) d.push_back(i * p[i]); if (d.empty()) d.push_back(0); return d; }
static double ev(const Poly &p, double x) { double v = 0; for (int i = (int)p.size() - 1; i >= 0; i--) v = v * x + p[i]; return v; }
// W_{l-1} of Q_l = P_l Q_0 - W
static Poly legw(int l) { Poly a{0}, b{1}; if (l == 0) return a; for (int k = 1; k < l; k++) { Poly c(k + 1, 0.0); for (size_t i = 0; i < b.size(); i++) c[i + 1] += (2 * k + 1) * b[i] / (k + 1); for (size_t i = 0; i < a.size(); i++) c[i] -= k * a[i] / (k + 1); a = b; b = c; } return b; }
static long double closed_il(int L, long double x) {  // by downward recursion from the series
  long double t = 1; for (int k = 1; k <= L; k++) t *= x / (2 * k + 1); long double s = t; for (int k = 1; k < 400; k++) { t *= x * x / (2.0L * k * (2 * L + 2 * k + 1)); s += t; } return s;
}
static long double closed_kl(int L, long double x) { long double a = expl(-x) / x, b = a * (1 + 1 / x); if (L == 0) return a; for (int k = 1; k < L; k++) { long double c = a + (2 * k + 1) / x * b; a = b; b = c; } return b; }
void sym_main() {
  std::string what = cfgs("what", "plm");
  int L = cfg("L", 3), M = cfg("M", 3), reg = cfg("reg", 0);
  if (what == "plm" || what == "qlm") {
    bool q = what == "qlm";
    double lo = reg == 0 ? -0.95 : reg == 1 ? 1.05 : -4, hi = reg == 0 ? 0.95 : reg == 1 ? 4 : -1.05, in = reg == 0 ? 0.3 : reg == 1 ? 1.2 : -1.4;
    if (q && reg == 1) { hi = cfg("xhi", 120) / 100.0; lo = cfg("xlo", 101) / 100.0; in = 0.5 * (lo + hi); }
    double x = sym_real("x", lo, hi, in), s = reg == 0 ? 1 : -1;
    std::vector<double> out((L + 1) * (M + 1), 7.0), one(1);
    if (q) legendre::qlm<double>(out.data(), L, M, x); else legendre::plm<double>(out.data(), L, M, x);
    double d = s * (1 - x * x), w = std::sqrt(d);
    for (int m = 0; m <= M; m++) for (int l = 0; l <= L; l++) {
      double v = out[m * (L + 1) + l], r = 0;
      double wm = 1; for (int i = 0; i < m; i++) wm *= w;
      double ph = reg == 0 && (m & 1) ? -1 : 1;
      if (!q) {
        if (l < m) { sym_near(v, 0, 0, "vanishes for m > l"); continue; }
        Poly p = legp(l); for (int i = 0; i < m; i++) p = der(p);
        sym_near(v, ph * wm * ev(p, x), 1e-9 * fact(l + m), S("P_%d^%d", l, m));
      } else {
        // m-th derivative of P_l Q_0 - W, Q_0' = 1/(1-x^2); Leibniz with Q_0^(k) = n_k/(1-x^2)^k
        double q0 = 0.5 * (std::log(std::fabs(x + 1)) - std::log(std::fabs(x - 1)));
        std::vector<double> qd(m + 1); qd[0] = q0;
        Poly num{1};  // Q_0^(k) = num_k / D^k, D = 1-x^2: num_{k+1} = num_k' D + 2 k x num_k
        for (int k = 1; k <= m; k++) { double D = 1; for (int i = 0; i < k; i++) D *= 1 - x * x; qd[k] = ev(num, x) / D; Poly n1 = der(num), nn(num.size() + 2, 0.0); for (size_t i = 0; i < n1.size(); i++) { nn[i] += n1[i]; nn[i + 2] -= n1[i]; } for (size_t i = 0; i < num.size(); i++) nn[i + 1] += 2 * k * num[i]; num = nn; }
        Poly p = legp(l), W = legw(l); double bin = 1;
        std::vector<Poly> pd(m + 1); pd[0] = p; for (int i = 1; i <= m; i++) pd[i] = der(pd[i - 1]);
        for (int k = 0; k <= m; k++) { r += bin * qd[k] * ev(pd[m - k], x); bin = bin * (m - k) / (k + 1); }
        for (int i = 0; i < m; i++) W = der(W);
        r = ph * wm * (r - ev(W, x));
        double sc = 1; for (int i = 0; i < 2 * m; i++) sc *= w;
        sym_near(v * sc, r * sc, 1e-7 * fact(l + m), S("Q_%d^%d", l, m));
      }
    }
    auto rej = [&](int a, int b, double y, bool qq) { try { if (qq) legendre::qlm<double>(one.data(), a, b, y); else legendre::plm<double>(one.data(), a, b, y); } catch (std::invalid_argument &) { return 1; } catch (std::domain_error &) { return 2; } return 0; };
    sym_assert(rej(-1, 0, x, q) == 1 && rej(0, -1, x, q) == 1, "negative orders rejected");
    if (q) sym_assert(rej(0, 0, 1.0, true) == 2 && rej(0, 0, -1.0, true) == 2, "singular points rejected");
  } else if (what == "qmiller") {  // fixed points, compared with the recurrence-free series in 1/x
    for (double x : {1.05, 1.1, 1.3, 1.7, 2.5, 5.0, 12.0, 60.0}) {
      std::vector<double> out((L + 1) * (M + 1)); legendre::qlm<double>(out.data(), L, M, x);
      double sg = cfg("sgn", 1);
      for (int l = 0; l <= L; l++) for (int m = 0; m <= M; m++) {
        // Q_l^m = (x^2-1)^{m/2} d^m/dx^m sum_k a_k x^{-l-1-2k}
        long double a = 1; for (int k = 1; k <= l; k++) a *= (long double)k / (2 * k + 1);
        long double s = 0, X = x; 
        for (int k = 0; k < 6000; k++) { if (k) a *= (long double)(l + 2 * k - 1) * (l + 2 * k) / (2.0L * k * (2 * l + 2 * k + 1)); long double c = a * powl(X, -l - 1 - 2 * k - m); for (int i = 0; i < m; i++) c *= -(l + 1 + 2 * k + i); s += c; if (fabsl(c) < 1e-22L * fabsl(s)) break; }
        s *= powl(X * X - 1, m / 2.0L);
        sym_near(out[m * (L + 1) + l] / (double)s, 1, 1e-8, S("Q_%d^%d at a fixed point", l, m));
      }
      (void)sg;
    }
  } else if (what == "ylm") {
    double c = sym_real("c", -0.95, 0.95, 0.3), phi = sym_real("phi", 0, 6.2, 0.7);
    for (int l = 0; l <= L; l++) for (int m = -l; m <= l; m++) {
      std::complex<double> y = spherical_harmonics(l, m, c, phi);
      int a = std::abs(m); Poly p = legp(l); for (int i = 0; i < a; i++) p = der(p);
      double N = std::sqrt((2 * l + 1) / (4 * M_PI) * fact(l - a) / fact(l + a)), w = std::sqrt(1 - c * c), v = N * ev(p, c);
      for (int i = 0; i < a; i++) v *= w;
      if (m > 0 && (m & 1)) v = -v;
      sym_near(y.real(), v * std::cos(m * phi), 1e-9, S("Re Y_%d^%d", l, m)); sym_near(y.imag(), v * std::sin(m * phi), 1e-9, S("Im Y_%d^%d", l, m));
    }
    for (double z : {1.0, -1.0}) for (int l = 0; l <= L; l++) for (int m = -l; m <= l; m++) { std::complex<double> y = spherical_harmonics(l, m, z, phi); double v = m ? 0 : std::sqrt((2 * l + 1) / (4 * M_PI)) * (z < 0 && (l & 1) ? -1 : 1); sym_near(y.real(), v, 1e-9, "on the axis"); sym_near(y.imag(), 0, 1e-9, "on the axis"); }
  } else if (what == "il") {  // modified spherical Bessel function of the first kind
    double x = sym_real("x", cfg("xlo", -50) / 100.0, cfg("xhi", 50) / 100.0, cfg("xi", 20) / 100.0);
    double y = utils::bessel_il<double>(x, L);
    double t = 1; for (int k = 1; k <= L; k++) t *= x / (2 * k + 1);
    double s = t; for (int k = 1; k < cfg("terms", 14); k++) { t = t * x * x / (2.0 * k * (2 * L + 2 * k + 1)); s += t; }
    double sc = fact(L) / std::max(1.0, (double)closed_il(L, cfg("xhi", 50) / 100.0)) ; (void)sc;
    sym_near(y, s, 1e-9 * std::max(1e-2, (double)closed_il(L, std::max(std::fabs(cfg("xlo", -50) / 100.0), cfg("xhi", 50) / 100.0))), S("i_%d", L));
  } else if (what == "bessel") {  // fixed points on a ladder, both kinds, both branches
    for (int k = 0; k < 45; k++) { double x = 0.01 * std::pow(1.2, k); sym_near(utils::bessel_il<double>(x, L) / (double)closed_il(L, x), 1, 1e-9, "i_L at a fixed point"); sym_near(utils::bessel_kl<double>(x, L) / (double)closed_kl(L, x), 1, 1e-9, "k_L at a fixed point"); sym_near(utils::bessel_il<double>(-x, L), (L & 1 ? -1 : 1) * utils::bessel_il<double>(x, L), 1e-12, "parity"); }
    sym_near(utils::bessel_il<double>(0.0, L), L == 0 ? 1 : 0, 1e-14, "i_L(0)");
  } else if (what == "phi") {  // general expansion
    double X = sym_real("X", cfg("Xlo", 60) / 100.0, cfg("Xhi", 300) / 100.0, cfg("Xi", 130) / 100.0), x = cfg("xfix", 0) ? cfg("xi", 70) / 100.0 : sym_real("x", 0.45, 3, cfg("xi", 70) / 100.0);
    int n = L;
    double v = erfc_expn::Phi<double>(n, X, x), v2 = erfc_expn::Phi<double>(n, x, X), B = X, b = x;
    if (B < b) std::swap(B, b);
    Poly p = legp(n);
    // sum_i p_i ((X^2+x^2-u^2)/(2Xx))^i = sum_k c_k u^{2k}
    double sum = 0, q2 = X * X + x * x;
    std::vector<double> c(n + 1, 0.0);
    for (int i = 0; i <= n; i++) if (p[i] != 0) { double bin = 1, pre = p[i] / ipow(2 * X * x, i); for (int k = 0; k <= i; k++) { c[k] += pre * bin * (k & 1 ? -1 : 1) * ipow(q2, i - k); bin = bin * (i - k) / (k + 1); } }
    auto A = [&](int k, double u) { double e = std::exp(-u * u), t = 0; for (int j = 0; j <= k; j++) t += ipow(u, 2 * j) / fact(j); return ipow(u, 2 * k + 1) / (2 * k + 1) * std::erfc(u) - fact(k) / ((2 * k + 1) * std::sqrt(M_PI)) * e * t; };
    for (int k = 0; k <= n; k++) sum += c[k] * (A(k, B + b) - A(k, B - b));
    double ref = (2 * n + 1) / (2 * X * x) * sum;
    sym_near(v, ref, cfg("tol", 6) == 6 ? 1e-6 : 1e-4, S("multipole %d of erfc(r)/r", n));
    sym_near(v2, v, 1e-12, "symmetric in its arguments");
  } else if (what == "phishort") {  // short-range series against the Taylor series, X fixed
    int n = L; double X = cfg("X", 100) / 100.0;
    double x = sym_real("x", cfg("xlo", 1) / 100.0, cfg("xhi", 39) / 100.0, cfg("xi", 20) / 100.0);
    std::map<int, long double> e; long double X_ = X; double ref = 0;
    for (int k = 0; k < cfg("terms", 26); k++) {
      // g = (1/X) d^{2k} erfc / dX^{2k}; apply (1/X d/dX)^n
      std::map<int, long double> ge, gc;
      if (k == 0) gc[-1] = 1; else { e.clear(); e[0] = -2 / sqrtl(M_PIl); for (int i = 1; i < 2 * k; i++) { std::map<int, long double> d; for (auto &t : e) { d[t.first - 1] += t.first * t.second; d[t.first + 1] -= 2 * t.second; } e = d; } for (auto &t : e) ge[t.first - 1] += t.second; }
      for (int i = 0; i < n; i++) {
        std::map<int, long double> de, dc;
        for (auto &t : ge) { de[t.first - 2] += t.first * t.second; de[t.first] -= 2 * t.second; }
        for (auto &t : gc) { dc[t.first - 2] += t.first * t.second; de[t.first - 1] -= 2 / sqrtl(M_PIl) * t.second; }
        ge = de; gc = dc;
      }
      long double f = 0; for (auto &t : ge) if (t.second != 0) f += t.second * powl(X_, t.first) * expl(-X_ * X_); for (auto &t : gc) if (t.second != 0) f += t.second * powl(X_, t.first) * erfcl(X_);
      f *= powl(X_, n) * (2 * n + 1) * (n & 1 ? -1 : 1);
      for (int i = 2; i <= 2 * k; i += 2) f /= i;
      for (int i = 1; i <= 2 * n + 2 * k + 1; i += 2) f /= i;
      ref += (double)f * ipow(x, n + 2 * k);
    }
    double v = erfc_expn::Phi<double>(n, X, x);
    sym_near(v, ref, 1e-9, S("short-range multipole %d", n));
    if (n > 0) sym_near(erfc_expn::Phi<double>(n, X, 0.0), 0, 0, "no multipole at the origin"); else sym_near(erfc_expn::Phi<double>(0, X, 0.0), std::erfc(X) / X, 1e-12, "monopole at the origin");
  }
}
