// Diatomic basis in prolate spheroidal coordinates: z = Rh cosh(mu) cos(nu).
#include "h_ang.h"
#include "diatomic/basis.h"
#include "scf_helpers.h"
extern "C" { __float128 coshq(__float128), sinhq(__float128), logq(__float128), powq(__float128, __float128); }
#include <map>
#include <set>
using namespace helfem;
typedef polynomial_basis::FiniteElementBasis FE;
typedef diatomic::basis::TwoDBasis TB;
static const double BETA[6] = {0, 0.7, 1.5, 2.2, 3, 4};
typedef std::function<double(double, double)> F2;
struct Q1 { double mu, w; int e; VecD f, d; };  // radial point: all functions, value and derivative
static std::vector<Q1> rpts(const FE &fe, const std::vector<double> &cuts, int pw = 1) {
  std::vector<Q1> R;
  for (size_t c = 0; c + 1 < cuts.size(); c++) for (size_t g = 0; g < gx.size(); g++) {
    double t = 0.5 * (gx[g] + 1), h = cuts[c + 1] - cuts[c]; Q1 q; q.mu = cuts[c] + h * std::pow(t, pw); q.w = 0.5 * gw[g] * h * pw * std::pow(t, pw - 1); q.f = q.d = VecD::Zero(fe.get_nbf()); q.e = -1;
    for (size_t e = 0; e < fe.get_nelem(); e++) if (fe.element_begin(e) <= q.mu && q.mu <= fe.element_end(e)) { q.e = e; size_t a, b; fe.get_idx(e, a, b); double x = 2 * (q.mu - fe.element_begin(e)) / (fe.element_end(e) - fe.element_begin(e)) - 1; q.f.segment(a, b - a + 1) = fe.eval_dnf(vec1(x), 0, e).row(0).transpose(); q.d.segment(a, b - a + 1) = fe.eval_dnf(vec1(x), 1, e).row(0).transpose(); break; }
    R.push_back(q);
  }
  return R;
}
// Legendre functions on (1,inf) without sign factors: (x^2-1)^{m/2} d^m/dx^m
static void legPQ(int L, int M, double mu, double &P, double &Q) {
  __float128 x = coshq((__float128)mu), w = sinhq((__float128)mu); std::vector<__float128> p(L + 1), q(L + 1);
  p[0] = 1; q[0] = (__float128)0.5 * logq((x + 1) / (x - 1)); if (L) { p[1] = x; q[1] = x * q[0] - 1; }
  for (int l = 1; l < L; l++) { p[l + 1] = ((2 * l + 1) * x * p[l] - l * p[l - 1]) / (l + 1); q[l + 1] = ((2 * l + 1) * x * q[l] - l * q[l - 1]) / (l + 1); }
  for (int m = 0; m < M; m++) { std::vector<__float128> a(L + 1), b(L + 1); for (int l = 0; l <= L; l++) { __float128 p1 = l ? p[l - 1] : 0, q1 = l ? q[l - 1] : (m == 0 ? 0 : 0);
      if (l == 0) { a[0] = 0; __float128 dq = -1 / (w * w); if (m == 0) b[0] = w * dq; else { b[0] = 0; } continue; }
      a[l] = ((l - m) * x * p[l] - (l + m) * p1) / w; b[l] = ((l - m) * x * q[l] - (l + m) * q1) / w; }
    if (m >= 1) { // Q_0^{m+1}: d^{m+1}/dx^{m+1} of 1/2 log((x+1)/(x-1))
      int n = m + 1; __float128 f = 1; for (int k = 2; k < n; k++) f *= k; __float128 t = (__float128)0.5 * (n & 1 ? 1 : -1) * f * (1 / powq(x + 1, n) - 1 / powq(x - 1, n)); b[0] = powq(w, n) * t; }
    p = a; q = b; }
  P = (double)p[L]; Q = (double)q[L];
}
void sym_main() {
  std::string what = cfgs("what", "one");
  int pb = cfg("primbas", 4), nn = cfg("nnodes", 3), nel = cfg("nel", 2), nq = cfg("nquad", 12);
  ref_gauss(cfg("ng", 20), gx, gw);
  static const std::vector<std::vector<std::array<int, 2>>> AM = {{{0, 0}}, {{0, 0}, {1, 0}}, {{0, 0}, {1, 0}, {1, 1}, {1, -1}}, {{1, -1}, {1, 1}, {2, 1}}, {{0, 0}, {1, 0}, {2, 0}, {3, 0}}, {{0, 0}, {2, 2}, {2, 0}, {1, 1}}, {{2, 2}, {0, 0}, {1, 1}, {3, -1}, {2, -2}}, {{1, 1}, {0, 0}, {1, -1}}};
  const auto &lm = AM[cfg("am", 2)];
  int na = lm.size(); Eigen::VectorXi lv(na), mv(na); for (int i = 0; i < na; i++) { lv(i) = lm[i][0]; mv(i) = lm[i][1]; }
  double Rh = cfg("rsym", 1) ? sym_real("R", 0.3, 3, 1.2) : 1.2;
  VecD bv(nel + 1); for (int i = 0; i <= nel; i++) bv(i) = BETA[i];
  std::shared_ptr<const polynomial_basis::PolynomialBasis> p(polynomial_basis::get_basis(pb, nn));
  int Z1 = cfg("Z1", 3), Z2 = cfg("Z2", 1);
  TB tb(Z1, Z2, Rh, p, nq, bv, lv, mv, cfg("leg", 1));
  FE fe(p, bv, false, false, true, true);
  int nr = fe.get_nbf();
  std::vector<int> pa, pr; for (int i = 0; i < na; i++) for (int k = mv(i) ? 1 : 0; k < nr; k++) { pa.push_back(i); pr.push_back(k); }
  int N = pa.size(); double tol = std::pow(10.0, -cfg("tole", 9));
  std::vector<double> cuts(bv.data(), bv.data() + bv.size());
  sym_assert((int)tb.Nbf() == N && (int)tb.Nrad() == nr && (int)tb.Nang() == na && (int)tb.Ndummy() == na * nr, "sizes");
  if (what == "one") {
    auto R = rpts(fe, cuts);
    auto mat = [&](const F2 &g) { MatD M = MatD::Zero(N, N); for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) { int a = pa[i], b = pa[j]; if (mv(a) != mv(b)) continue; double s = 0; for (auto &q : R) { double ff = q.f(pr[i]) * q.f(pr[j]); if (ff == 0) continue; double t = 0; for (size_t k = 0; k < gx.size(); k++) t += 2 * M_PI * gw[k] * theta(lv(a), mv(a), gx[k]) * theta(lv(b), mv(b), gx[k]) * g(q.mu, gx[k]); s += q.w * ff * t; } M(i, j) = M(j, i) = s; } return M; };
    auto vol = [](double mu, double x) { return std::sinh(mu) * (std::cosh(mu) * std::cosh(mu) - x * x); };
    double R2 = Rh * Rh, R3 = R2 * Rh, R4 = R2 * R2, R5 = R4 * Rh, B = sym_real("B", -2, 2, 0.7);
    same(tb.overlap(), MatD(R3 * mat(vol)), tol, "overlap");
    same(tb.nuclear(), MatD(-R2 * mat([&](double mu, double x) { return vol(mu, x) * (Z1 / (std::cosh(mu) + x) + Z2 / (std::cosh(mu) - x)); })), tol * 10, "nuclear attraction");
    same(tb.dipole_z(), MatD(R4 * mat([&](double mu, double x) { return vol(mu, x) * std::cosh(mu) * x; })), tol * 100, "dipole");
    // (3 z^2 - r^2)/2 with r^2 = z^2 + rho^2
    same(tb.quadrupole_zz(), MatD(R5 * mat([&](double mu, double x) { double z = std::cosh(mu) * x, rho = std::sinh(mu) * std::sqrt(1 - x * x); return vol(mu, x) * (z * z - 0.5 * rho * rho); })), tol * 1000, "quadrupole");
    MatD ov = mat(vol), r2 = mat([&](double mu, double x) { return vol(mu, x) * std::sinh(mu) * std::sinh(mu) * (1 - x * x); }), bz = (B * B / 8 * R5) * r2; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) bz(i, j) -= 0.5 * B * mv(pa[j]) * R3 * ov(i, j);
    same(tb.Bz_field(B), bz, tol * 1000, "magnetic field");
    MatD T = MatD::Zero(N, N);
    for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) { int a = pa[i], b = pa[j]; if (mv(a) != mv(b)) continue; double s = 0; for (auto &q : R) for (size_t k = 0; k < gx.size(); k++) { double x = gx[k], sh = std::sinh(q.mu), s2 = 1 - x * x, ta = theta(lv(a), mv(a), x), tb2 = theta(lv(b), mv(b), x), dd = s2 * theta_x(lv(a), mv(a), x) * theta_x(lv(b), mv(b), x), ff = q.f(pr[i]) * q.f(pr[j]);
          s += 0.5 * q.w * 2 * M_PI * gw[k] * (sh * (q.d(pr[i]) * q.d(pr[j]) * ta * tb2 + ff * dd) + mv(a) * mv(a) * (sh * sh + s2) / (sh * s2) * ff * ta * tb2); } T(i, j) = T(j, i) = s; }
    same(tb.kinetic(), MatD(Rh * T), tol * 100, "kinetic energy");
  } else if (what == "cross") {
    int nel2 = cfg("nel2", 3); VecD b2(nel2 + 1); for (int i = 0; i <= nel2; i++) b2(i) = BETA[i] * (cfg("same", 0) ? 1.0 : bv(nel) / BETA[nel2] * cfg("xmax", 100) / 100.0);
    const auto &lm2 = AM[cfg("am2", 6)]; int na2 = lm2.size(); Eigen::VectorXi l2(na2), m2(na2); for (int i = 0; i < na2; i++) { l2(i) = lm2[i][0]; m2(i) = lm2[i][1]; }
    std::shared_ptr<const polynomial_basis::PolynomialBasis> p2(polynomial_basis::get_basis(cfg("primbas2", 4), cfg("nnodes2", 4)));
    TB t2(Z1, Z2, Rh, p2, nq, b2, l2, m2, true); FE f2(p2, b2, false, false, true, true); int n2 = f2.get_nbf();
    std::set<double> u(bv.data(), bv.data() + bv.size()); for (int i = 0; i <= nel2; i++) u.insert(b2(i)); std::vector<double> c(u.begin(), u.end());
    auto R = rpts(fe, c), Q = rpts(f2, c);
    MatD X = MatD::Zero(N, 0); std::vector<int> qa, qr; for (int i = 0; i < na2; i++) for (int k = m2(i) ? 1 : 0; k < n2; k++) { qa.push_back(i); qr.push_back(k); }
    X = MatD::Zero(N, qa.size());
    for (int i = 0; i < N; i++) for (size_t j = 0; j < qa.size(); j++) { int a = pa[i], b = qa[j]; if (mv(a) != m2(b)) continue; double s = 0; for (size_t k = 0; k < R.size(); k++) { double ff = R[k].f(pr[i]) * Q[k].f(qr[j]); if (ff == 0 || R[k].e < 0 || Q[k].e < 0) continue; double t = 0, ch = std::cosh(R[k].mu); for (size_t g = 0; g < gx.size(); g++) t += 2 * M_PI * gw[g] * theta(lv(a), mv(a), gx[g]) * theta(l2(b), m2(b), gx[g]) * (ch * ch - gx[g] * gx[g]); s += R[k].w * std::sinh(R[k].mu) * ff * t; } X(i, j) = Rh * Rh * Rh * s; }
    same(tb.overlap(t2), X, tol * 10, "overlap between two bases");
  } else if (what == "index") {
    auto pi = tb.pure_indices(); sym_assert((int)pi.size() == N, "kept functions"); for (int i = 0; i < N && i < (int)pi.size(); i++) sym_assert(pi[i] == pa[i] * nr + pr[i], "kept function");
    MatD A(N, N), D(na * nr, na * nr); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) A(i, j) = sym_real(S("A%d_%d", i, j), -1, 1, 0.1 * i - 0.07 * j); for (int i = 0; i < na * nr; i++) for (int j = 0; j < na * nr; j++) D(i, j) = sym_real(S("D%d_%d", i, j), -1, 1, 0.1 * j - 0.03 * i);
    MatD E = tb.expand_boundaries(A), Rm = tb.remove_boundaries(D), F = MatD::Zero(na * nr, na * nr), G(N, N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { F(pa[i] * nr + pr[i], pa[j] * nr + pr[j]) = A(i, j); G(i, j) = D(pa[i] * nr + pr[i], pa[j] * nr + pr[j]); }
    same(E, F, 0, "expanded matrix"); same(Rm, G, 0, "reduced matrix");
    auto thr = [&](const std::function<void()> &f) { try { f(); } catch (std::logic_error &) { return true; } return false; };
    sym_assert(thr([&]() { tb.expand_boundaries(MatD::Zero(N + 1, N + 1)); }) && thr([&]() { tb.remove_boundaries(MatD::Zero(na * nr + 1, na * nr + 1)); }), "wrong sizes are rejected");
    typedef std::vector<Eigen::Index> IV;
    auto pick = [&](const std::function<bool(int, int)> &f) { IV v; for (int i = 0; i < N; i++) if (f(lv(pa[i]), mv(pa[i]))) v.push_back(i); return v; };
    for (int m = -4; m <= 4; m++) { sym_assert(tb.m_indices(m) == pick([&](int, int k) { return k == m; }), "functions of one m"); for (int o = 0; o < 2; o++) sym_assert(tb.m_indices(m, (bool)o) == pick([&](int l, int k) { return k == m && l % 2 == o; }), "functions of one m and parity"); }
    std::set<int> ms; int mx = 0; for (int i = 0; i < na; i++) { ms.insert(mv(i)); mx = std::max(mx, std::abs(mv(i))); } sym_assert(tb.absm_max() == mx, "largest |m|");
    auto mn = [](int m) { return "m=" + std::string(m > 0 ? "+" : "") + std::to_string(m); };
    for (int y = 0; y < 4; y++) { std::vector<IV> e, mi; std::vector<std::string> lb;
      if (y == 0) { e.push_back(pick([](int, int) { return true; })); lb.push_back("all"); }
      for (int m : ms) { if (y == 1) { e.push_back(pick([&](int, int k) { return k == m; })); lb.push_back(mn(m)); } if (y == 2) for (int o = 0; o < 2; o++) { e.push_back(pick([&](int l, int k) { return k == m && l % 2 == o; })); lb.push_back(mn(m) + (o ? " u" : " g")); } }
      if (y == 3) for (int m = 0; m <= mx; m++) { e.push_back(pick([&](int, int k) { return k == m; })); lb.push_back("|m|=" + std::to_string(m)); mi.push_back(m ? pick([&](int, int k) { return k == -m; }) : IV()); }
      if (y < 3) mi.resize(e.size());
      sym_assert(tb.get_sym_idx(y) == e, "symmetry blocks"); sym_assert(tb.get_sym_labels(y) == lb, "symmetry labels"); sym_assert(tb.get_sym_mirror_idx(y) == mi, "mirror blocks"); }
    sym_assert(thr([&]() { tb.get_sym_idx(4); }) && thr([&]() { tb.get_sym_labels(4); }), "unknown symmetry rejected");
    for (int e = 0; e < nel; e++) { size_t a, b; fe.get_idx(e, a, b); IV d, r; for (int i = 0; i < na; i++) for (int k = a; k <= (int)b; k++) { d.push_back(i * nr + k); if (k || !mv(i)) { int pos = -1; for (int q = 0; q < N; q++) if (pa[q] == i && pr[q] == k) pos = q; r.push_back(pos); } }
      sym_assert(tb.bf_list_dummy(e) == d, "functions of one element, unreduced"); sym_assert(tb.bf_list(e) == r, "functions of one element"); sym_assert(tb.dummy_idx_to_real_idx(d) == r, "index conversion");
      for (int m = -4; m <= 4; m++) { IV x; for (int i = 0; i < na; i++) if (mv(i) == m) for (int k = a; k <= (int)b; k++) x.push_back(i * nr + k); sym_assert(tb.bf_list_dummy(e, m) == x, "functions of one element and m"); } }
    sym_assert(thr([&]() { tb.dummy_idx_to_real_idx(IV{(Eigen::Index)(na * nr)}); }), "invalid index rejected");
    Eigen::VectorXi lmx(3), l3, m3; lmx << cfg("l0", 2), cfg("l1", 2), cfg("l2", 1); diatomic::basis::lm_to_l_m(lmx, l3, m3); std::set<std::pair<int, int>> want, got; for (int m = 0; m < 3; m++) for (int l = m; l <= lmx(m); l++) { want.insert({l, m}); want.insert({l, -m}); } for (int i = 0; i < l3.size(); i++) got.insert({l3(i), m3(i)}); sym_assert(want == got && (int)got.size() == l3.size(), "channels from the largest l of each |m|");
    sym_assert(tb.get_Z1() == Z1 && tb.get_Z2() == Z2 && tb.get_nquad() == nq && tb.get_poly_id() == pb && tb.get_poly_nnodes() == nn && (int)tb.get_rad_Nel() == nel, "parameters"); sym_near(tb.get_Rhalf(), Rh, 0, "half distance"); sym_near(tb.get_mumax(), bv(nel), 0, "largest mu"); sym_assert(tb.get_lval() == lv && tb.get_mval() == mv, "angular values"); VecD gb = tb.get_bval(); for (int i = 0; i <= nel; i++) sym_near(gb(i), bv(i), 0, "boundaries");
  } else if (what == "sinvh") {
    bool chol = cfg("chol", 1); int y = cfg("sym", 0);
    MatD X = tb.Sinvh(chol, y), Sm = tb.overlap(); auto ix = tb.get_sym_idx(y);
    std::vector<int> cols; int c = 0; for (auto &b : ix) c += b.size();
    MatD I = X.transpose() * Sm * X, W = MatD::Zero(N, N); for (int i = 0; i < c; i++) W(i, i) = 1;
    same(I, W, 1e-7, "orthonormal combinations");
    if (y) { int k0 = 0; for (auto &b : ix) { std::vector<int> in(N, 0); for (auto i : b) in[i] = 1; for (size_t k = 0; k < b.size(); k++, k0++) for (int i = 0; i < N; i++) if (!in[i]) sym_near(X(i, k0), 0, 0, "combinations do not mix blocks"); } }
  } else if (what == "eval") {
    double phi = sym_real("phi", 0, 6, 0.7), x = cfg("xpct", 30) / 100.0, w = std::sqrt(1 - x * x);
    VecD xq, wq; { diatomic::basis::RadialBasis rb(fe, nq); (void)rb; }
    double mu = sym_real("mu", 0.01, bv(nel), cfg("mu0", 90) / 100.0);
    Eigen::VectorXcd pt = tb.eval_bf(mu, x, phi); sym_assert((int)pt.size() == N, "point evaluation: size");
    { int e = 0; while (e + 1 < nel && mu > bv(e + 1)) e++; size_t a, b; fe.get_idx(e, a, b); VecD v = VecD::Zero(nr); double xi = 2 * (mu - bv(e)) / (bv(e + 1) - bv(e)) - 1; v.segment(a, b - a + 1) = fe.eval_dnf(vec1(xi), 0, e).row(0).transpose(); for (int i = 0; i < N; i++) { double am = v(pr[i]) * theta(lv(pa[i]), mv(pa[i]), x); int m = mv(pa[i]); sym_near(pt(i).real(), am * std::cos(m * phi), 1e-9, "point value, real part"); sym_near(pt(i).imag(), am * std::sin(m * phi), 1e-9, "point value, imaginary part"); } }
    for (int e = 0; e < nel; e++) {
      VecD r = tb.get_r(e), wr = tb.get_wrad(e); size_t a, b; fe.get_idx(e, a, b); int n = b - a + 1; double h = 0.5 * (bv(e + 1) - bv(e)), sw = 0;
      MatD RB = tb.get_rad_bf(e), RD = tb.get_rad_df(e), R2 = tb.get_rad_d2f(e);
      for (int q = 0; q < r.size(); q++) sw += wr(q); sym_near(sw, 2 * h, 1e-6, "radial weights");
      for (int q = 0; q < r.size(); q += cfg("stride", 5)) {
        double xi = (r(q) - bv(e)) / h - 1, sh = std::sinh(r(q)), ch = std::cosh(r(q)), h2 = Rh * Rh * (sh * sh + w * w);
        VecD v = fe.eval_dnf(vec1(xi), 0, e).row(0).transpose(), v1 = fe.eval_dnf(vec1(xi), 1, e).row(0).transpose(), v2 = fe.eval_dnf(vec1(xi), 2, e).row(0).transpose();
        for (int k = 0; k < n; k++) { sym_near(RB(q, k), v(k), 1e-9, "radial value"); sym_near(RD(q, k), v1(k), 1e-8, "radial derivative"); sym_near(R2(q, k), v2(k), 1e-7, "second radial derivative"); }
        Eigen::MatrixXcd f = tb.eval_bf(e, q, x, phi), dr, dt, dp; tb.eval_df(e, q, x, phi, dr, dt, dp);
        sym_assert(f.rows() == 1 && f.cols() == n * na && dr.cols() == n * na && dt.cols() == n * na && dp.cols() == n * na, "shape");
        for (int A = 0; A < na; A++) { int l = lv(A), m = mv(A); double t0 = theta(l, m, x), t1 = -w * theta_x(l, m, x), cr = std::cos(m * phi), ci = std::sin(m * phi);
          for (int k = 0; k < n; k++) { int c = A * n + k; auto cmp = [&](std::complex<double> z, double amp, const char *nm) { sym_near(z.real(), amp * cr, 1e-8, std::string(nm) + ", real part"); sym_near(z.imag(), amp * ci, 1e-8, std::string(nm) + ", imaginary part"); };
            cmp(f(0, c), v(k) * t0, "value"); cmp(dr(0, c), v1(k) * t0, "derivative in mu"); cmp(dt(0, c), v(k) * t1, "derivative in nu"); sym_near(dp(0, c).real(), -m * v(k) * t0 * ci, 1e-8, "azimuthal derivative, real part"); sym_near(dp(0, c).imag(), m * v(k) * t0 * cr, 1e-8, "azimuthal derivative, imaginary part"); } }
        std::set<int> ms; for (int i = 0; i < na; i++) ms.insert(mv(i));
        for (int m : ms) { std::vector<int> fl; for (int i = 0; i < na; i++) if (mv(i) == m) fl.push_back(i);
          MatD F = tb.eval_bf(e, q, x, m), F2m = tb.eval_bf(e, q, x, m, RB), DR, DT, LF; tb.eval_df(e, q, x, m, DR, DT); tb.eval_lf(e, q, x, m, LF);
          sym_assert(F.cols() == n * (int)fl.size() && LF.cols() == F.cols() && DR.cols() == F.cols() && DT.cols() == F.cols(), "shape of one m");
          for (size_t i = 0; i < fl.size(); i++) { int l = lv(fl[i]); double t0 = theta(l, m, x), tx = theta_x(l, m, x), txx = theta_xx(l, m, x);
            for (int k = 0; k < n; k++) { int c = i * n + k; sym_near(F(0, c), v(k) * t0, 1e-9, "value at one m"); sym_near(F2m(0, c), v(k) * t0, 1e-9, "value at one m from given radial functions"); sym_near(DR(0, c), v1(k) * t0, 1e-8, "mu derivative at one m"); sym_near(DT(0, c), -w * v(k) * tx, 1e-8, "nu derivative at one m");
              double lap = (v2(k) + ch / sh * v1(k)) * t0 + v(k) * ((1 - x * x) * txx - 2 * x * tx); sym_near(LF(0, c) * h2 * sh * sh, (lap - v(k) * t0 * m * m * (sh * sh + w * w) / (sh * sh * w * w)) * sh * sh, 1e-7, "Laplacian at one m"); } } }
      }
    }
  } else if (what == "jk") {
    MatD P(N, N);
    for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) {
      int mi = mv(pa[i]), mj = mv(pa[j]);
      if (cfg("absm", 0) && mi != mj) { P(i, j) = P(j, i) = 0; continue; }
      P(i, j) = P(j, i) = sym_real(S("P%d_%d", i, j), -1, 1, 0.3 + 0.1 * (i % 5) - 0.07 * j);
    }
    if (cfg("absm", 0)) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (mv(pa[i]) < 0 && mv(pa[j]) < 0) { int i2 = -1, j2 = -1; for (int k = 0; k < N; k++) { if (lv(pa[k]) == lv(pa[i]) && mv(pa[k]) == -mv(pa[i]) && pr[k] == pr[i]) i2 = k; if (lv(pa[k]) == lv(pa[j]) && mv(pa[k]) == -mv(pa[j]) && pr[k] == pr[j]) j2 = k; } P(i, j) = P(i2, j2); }
    int lx = lv.maxCoeff(), Lm = 2 * lx + 2, mx = 0; for (int i = 0; i < na; i++) mx = std::max(mx, std::abs(mv(i)));
    auto Rp = rpts(fe, cuts, 4); int np = Rp.size(); size_t ng = gx.size(); int n2 = nr * nr;
    std::vector<std::vector<double>> T(1);  // (L,M,a,b) -> nr^2 x nr^2
    std::map<std::array<int, 4>, MatD> TT;
    std::set<int> Ms; for (int i = 0; i < na; i++) for (int j = 0; j < na; j++) Ms.insert(std::abs(mv(i) - mv(j)));
    for (int M : Ms) for (int L = M; L <= Lm; L++) {
      std::vector<double> PL(np), QL(np); for (int q = 0; q < np; q++) legPQ(L, M, Rp[q].mu, PL[q], QL[q]);
      MatD U[2][2]; for (auto &u : U) for (auto &x : u) x = MatD::Zero(n2, n2);
      // outer point q (larger mu) with the integral over all smaller mu
      MatD cum[2] = {MatD::Zero(nr, nr), MatD::Zero(nr, nr)};
      for (int e = 0; e < nel; e++) {
        for (size_t g = 0; g < ng; g++) { const Q1 &o = Rp[e * ng + g]; MatD in[2] = {cum[0], cum[1]}; double lo = bv(e), hh = o.mu - lo; size_t a, b; fe.get_idx(e, a, b);
          for (size_t k = 0; k < ng; k++) { double mu = lo + 0.5 * (gx[k] + 1) * hh, pl, ql; legPQ(L, M, mu, pl, ql); VecD f = VecD::Zero(nr); double xi = 2 * (mu - bv(e)) / (bv(e + 1) - bv(e)) - 1; f.segment(a, b - a + 1) = fe.eval_dnf(vec1(xi), 0, e).row(0).transpose(); double w = 0.5 * gw[k] * hh * std::sinh(mu) * pl, c2 = std::cosh(mu) * std::cosh(mu); MatD ff = f * f.transpose(); in[0] += w * ff; in[1] += (w * c2) * ff; }
          MatD oo = o.f * o.f.transpose(); double w = o.w * std::sinh(o.mu) * QL[e * ng + g], c2 = std::cosh(o.mu) * std::cosh(o.mu);
          for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) { Eigen::Map<VecD> A(oo.data(), n2), Bv(in[y].data(), n2); U[x][y] += (w * (x ? c2 : 1)) * A * Bv.transpose(); } }
        for (size_t g = 0; g < ng; g++) { const Q1 &o = Rp[e * ng + g]; MatD oo = o.f * o.f.transpose(); double w = o.w * std::sinh(o.mu) * PL[e * ng + g], c2 = std::cosh(o.mu) * std::cosh(o.mu); cum[0] += w * oo; cum[1] += (w * c2) * oo; }
      }
      for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) TT[{L, M, x, y}] = MatD(U[x][y] + U[y][x].transpose());
    }
    MatD J = MatD::Zero(N, N), K = J; double R5 = ipow(Rh, 5);
    for (int a = 0; a < na; a++) for (int b = 0; b < na; b++) for (int c = 0; c < na; c++) for (int d = 0; d < na; d++) {
      int M = mv(a) - mv(b); if (M != mv(d) - mv(c)) continue;
      MatD R = MatD::Zero(n2, n2); bool any = false;
      for (int L = std::abs(M); L <= Lm; L++) {
        double ca[2], cd[2]; for (int x = 0; x < 2; x++) { ca[x] = y3(lv(a), mv(a), L, M, lv(b), mv(b), x ? 0 : 2) * (x ? 1 : -1); cd[x] = y3(lv(d), mv(d), L, M, lv(c), mv(c), x ? 0 : 2) * (x ? 1 : -1); }
        double fc = 4 * M_PI * (M & 1 ? -1 : 1) * fact(L - std::abs(M)) / fact(L + std::abs(M));
        for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) if (std::fabs(ca[x] * cd[y]) > 1e-14) { R += (fc * ca[x] * cd[y]) * TT[{L, std::abs(M), x, y}]; any = true; }
      }
      if (!any) continue;
      for (int i = 0; i < N; i++) if (pa[i] == a) for (int j = 0; j < N; j++) if (pa[j] == b) for (int k = 0; k < N; k++) if (pa[k] == c) for (int l = 0; l < N; l++) if (pa[l] == d) { double v = R(pr[j] * nr + pr[i], pr[l] * nr + pr[k]); J(i, j) += v * P(k, l); K(i, l) -= v * P(j, k); }
    }
    auto thr = [&](const std::function<void()> &f) { try { f(); } catch (std::logic_error &) { return true; } return false; };
    sym_assert(thr([&]() { tb.coulomb(P); }) && thr([&]() { tb.exchange(P); }), "integrals must have been computed");
    tb.compute_tei(true);
    double jt = std::pow(10.0, -cfg("jtol", 7));
    same(tb.coulomb(P), MatD(R5 * J), jt, "Coulomb matrix"); same(tb.exchange(P), MatD(R5 * K), jt, "exchange matrix");
    if (cfg("absm", 0)) { tb.set_absm_symmetric(true); sym_assert(tb.is_absm_symmetric(), "declaration kept"); same(tb.exchange(P), MatD(R5 * K), jt, "exchange matrix of a density symmetric in m"); }
  }
}
