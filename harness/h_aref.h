// Reference radial and angular integrals for the atomic harnesses (FE = finite-element basis type).
#pragma once
static std::vector<double> gx, gw;
typedef std::vector<double> Poly;
static Poly legp(int l) { Poly a{1}, b{0, 1}; if (l == 0) return a; for (int k = 1; k < l; k++) { Poly c(k + 2, 0.0); for (size_t i = 0; i < b.size(); i++) c[i + 1] += (2 * k + 1) * b[i] / (k + 1); for (size_t i = 0; i < a.size(); i++) c[i] -= k * a[i] / (k + 1); a = b; b = c; } return b; }
static double legm(int l, int a, double x) { Poly p = legp(l); for (int i = 0; i < a; i++) { Poly d; for (size_t k = 1; k < p.size(); k++) d.push_back(k * p[k]); p = d; if (p.empty()) p.push_back(0); } double v = 0; for (int i = (int)p.size() - 1; i >= 0; i--) v = v * x + p[i]; return v; }
static double theta(int l, int m, double x) { int a = std::abs(m); double v = legm(l, a, x) * std::sqrt((2 * l + 1) / (4 * M_PI) * fact(l - a) / fact(l + a)) * std::pow(1 - x * x, 0.5 * a); return m > 0 && (m & 1) ? -v : v; }
// int Y1^* Y2 Y3 dOmega for m1 = m2 + m3
static double y3(int l1, int m1, int l2, int m2, int l3, int m3) { if (m1 != m2 + m3) return 0; double s = 0; for (size_t g = 0; g < gx.size(); g++) s += 2 * M_PI * gw[g] * theta(l1, m1, gx[g]) * theta(l2, m2, gx[g]) * theta(l3, m3, gx[g]); return s; }
static double ang(int l1, int l2, int m, const std::function<double(double)> &f) { double s = 0; for (size_t g = 0; g < gx.size(); g++) s += 2 * M_PI * gw[g] * theta(l1, m, gx[g]) * theta(l2, m, gx[g]) * f(gx[g]); return s; }
static VecD val(const FE &fe, double x, int e, int d = 0) { return fe.eval_dnf(vec1(x), d, e).row(0).transpose(); }
static double radc(const FE &fe, double x, int e) { return fe.element_begin(e) + 0.5 * (x + 1) * (fe.element_end(e) - fe.element_begin(e)); }
static MatD radint(const FE &fe, int d, const std::function<double(double, int)> &f) {
  MatD M = MatD::Zero(fe.get_nbf(), fe.get_nbf());
  for (size_t e = 0; e < fe.get_nelem(); e++) { size_t a, b; fe.get_idx(e, a, b); double J = 0.5 * (fe.element_end(e) - fe.element_begin(e)); int n = b - a + 1;
    for (size_t g = 0; g < gx.size(); g++) { VecD v = val(fe, gx[g], e, d); M.block(a, a, n, n) += (gw[g] * J * f(radc(fe, gx[g], e), e)) * (v * v.transpose()); } }
  return M;
}
static void same(const MatD &A, const MatD &B, double tol, const std::string &l) {
  sym_assert(A.rows() == B.rows() && A.cols() == B.cols(), l + ": shape");
  if (A.rows() != B.rows() || A.cols() != B.cols()) return;
  for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) sym_near(A(i, j), B(i, j), tol, l + S(" (%d,%d)", i, j));
}
typedef std::function<double(double, double)> Kern;
static MatD slater(const FE &fe, const Kern &k) {  // R(i + n j, p + n q)
  int n = fe.get_nbf(); MatD R = MatD::Zero(n * n, n * n); size_t ng = gx.size();
  for (size_t e = 0; e < fe.get_nelem(); e++) for (size_t g = 0; g < fe.get_nelem(); g++) {
    size_t a0, a1, c0, c1; fe.get_idx(e, a0, a1); fe.get_idx(g, c0, c1); int ne = a1 - a0 + 1, nG = c1 - c0 + 1;
    double Je = 0.5 * (fe.element_end(e) - fe.element_begin(e)), Jg = 0.5 * (fe.element_end(g) - fe.element_begin(g));
    MatD M = MatD::Zero(ne * ne, nG * nG);
    for (size_t q = 0; q < ng; q++) {
      VecD f = val(fe, gx[q], e); double ra = radc(fe, gx[q], e); MatD in = MatD::Zero(nG, nG);
      for (size_t p = 0; p < ng; p++) {
        double h = e == g ? 0.5 * (gx[q] + 1) : 1.0, x = e == g ? -1 + h * (gx[p] + 1) : gx[p], rb = radc(fe, x, g); VecD v = val(fe, x, g);
        in += (gw[p] * h * Jg * (e >= g ? k(rb, ra) : k(ra, rb))) * (v * v.transpose());
      }
      for (int i = 0; i < ne; i++) for (int j = 0; j < ne; j++) for (int c = 0; c < nG; c++) for (int d = 0; d < nG; d++) M(j * ne + i, d * nG + c) += gw[q] * Je * f(i) * f(j) * in(c, d);
    }
    if (e == g) M = MatD(M + M.transpose());
    for (int i = 0; i < ne; i++) for (int j = 0; j < ne; j++) for (int c = 0; c < nG; c++) for (int d = 0; d < nG; d++) R((a0 + j) * n + a0 + i, (c0 + d) * n + c0 + c) += M(j * ne + i, d * nG + c);
  }
  return R;
}
