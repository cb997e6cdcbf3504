// Normalised polar parts of the spherical harmonics, from explicit polynomials.
#pragma once
#include "hutil.h"
typedef std::vector<double> Poly;
static std::vector<double> gx, gw;
static Poly legp(int l) { Poly a{1}, b{0, 1}; if (l == 0) return a; for (int k = 1; k < l; k++) { Poly c(k + 2, 0.0); for (size_t i = 0; i < b.size(); i++) c[i + 1] += (2 * k + 1) * b[i] / (k + 1); for (size_t i = 0; i < a.size(); i++) c[i] -= k * a[i] / (k + 1); a = b; b = c; } return b; }
static double legm(int l, int a, double x) { Poly p = legp(l); for (int i = 0; i < a; i++) { Poly d; for (size_t k = 1; k < p.size(); k++) d.push_back(k * p[k]); p = d; if (p.empty()) p.push_back(0); } double v = 0; for (int i = (int)p.size() - 1; i >= 0; i--) v = v * x + p[i]; return v; }
static double thnorm(int l, int m) { int a = std::abs(m); return std::sqrt((2 * l + 1) / (4 * M_PI) * fact(l - a) / fact(l + a)) * (m > 0 && (m & 1) ? -1 : 1); }
static double theta(int l, int m, double x) { int a = std::abs(m); return thnorm(l, m) * legm(l, a, x) * std::pow(1 - x * x, 0.5 * a); }
// derivatives with respect to x = cos(theta)
static double theta_x(int l, int m, double x) { int a = std::abs(m); double w = std::sqrt(1 - x * x); return thnorm(l, m) * (std::pow(w, a) * legm(l, a + 1, x) - a * x * std::pow(w, a - 2) * legm(l, a, x)); }
static double theta_xx(int l, int m, double x) { int a = std::abs(m); double w = std::sqrt(1 - x * x); return thnorm(l, m) * (std::pow(w, a) * legm(l, a + 2, x) - 2 * a * x * std::pow(w, a - 2) * legm(l, a + 1, x) + (a * (a - 2) * x * x * std::pow(w, a - 4) - a * std::pow(w, a - 2)) * legm(l, a, x)); }
// int Y1^* Y2 Y3 f(x) dOmega for m1 = m2 + m3
static double y3(int l1, int m1, int l2, int m2, int l3, int m3, int cospow = 0) { if (m1 != m2 + m3) return 0; double s = 0; for (size_t g = 0; g < gx.size(); g++) s += 2 * M_PI * gw[g] * theta(l1, m1, gx[g]) * theta(l2, m2, gx[g]) * theta(l3, m3, gx[g]) * ipow(gx[g], cospow); return s; }
static void same(const MatD &A, const MatD &B, double tol, const std::string &l) {
  sym_assert(A.rows() == B.rows() && A.cols() == B.cols(), l + ": shape");
  if (A.rows() != B.rows() || A.cols() != B.cols()) return;
  for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) sym_near(A(i, j), B(i, j), tol, l + S(" (%d,%d)", i, j));
}
