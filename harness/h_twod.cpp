// Atomic two-dimensional basis: radial functions times spherical harmonics.
#include "hutil.h"
#include "h_bess.h"
#include <RadialBasis.h>
#include "atomic/TwoDBasis.h"
#include "scf_helpers.h"
#include "gaunt.h"
#include "wignernj.hpp"
#include <map>
using namespace helfem;
typedef polynomial_basis::FiniteElementBasisT<double> FE;
typedef atomic::basis::TwoDBasis TB;
static const double BETA[6] = {0, 0.6, 1.7, 3.1, 5, 7};
#include "h_aref.h"
void sym_main() {
  std::string what = cfgs("what", "one");
  int pb = cfg("primbas", 4), nn = cfg("nnodes", 3), nel = cfg("nel", 2), nq = cfg("nquad", 12);
  ref_gauss(cfg("ng", 14), gx, gw);
  static const std::vector<std::vector<std::array<int, 2>>> AM = {{{0, 0}}, {{0, 0}, {1, 0}}, {{0, 0}, {1, -1}, {1, 0}, {1, 1}}, {{1, -1}, {1, 1}, {2, 1}}, {{0, 0}, {1, 0}, {2, 0}, {3, 0}}, {{0, 0}, {2, -2}, {2, 0}, {1, 1}}, {{2, 2}, {0, 0}, {1, 1}, {3, -1}, {1, -1}}};
  const auto &lm = AM[cfg("am", 2)];
  int na = lm.size(); Eigen::VectorXi lv(na), mv(na); for (int i = 0; i < na; i++) { lv(i) = lm[i][0]; mv(i) = lm[i][1]; }
  if (cfg("symam", 0)) for (int i = 0; i < na; i++) { lv(i) = sym_int(S("l%d", i), 0, cfg("lmx", 1), i % 2); mv(i) = sym_int(S("m%d", i), -cfg("lmx", 1), cfg("lmx", 1), 0); sym_assume(mv(i) <= lv(i)); sym_assume(mv(i) >= -lv(i)); for (int j = 0; j < i; j++) sym_assume(lv(i) != lv(j) || mv(i) != mv(j)); }
  double s = cfg("geo", 1) ? sym_real("s", 0.7, 1.5, 1.0) : 1.0;
  VecD bv(nel + 1); for (int i = 0; i <= nel; i++) bv(i) = s * BETA[i];
  std::shared_ptr<const polynomial_basis::PolynomialBasisT<double>> p(polynomial_basis::get_basis(pb, nn));
  bool zd = cfg("zd", 0);
  int Z = cfg("Z", 3), Zl = cfg("Zl", 0), Zr = cfg("Zr", 0);
  double Rh = cfg("rb", 1) >= 0 ? bv(cfg("rb", 1)) : 0.0;
  TB tb(Z, modelpotential::POINT_NUCLEUS, 0.0, p, zd, nq, bv, lv, mv, Zl, Zr, Rh);
  FE fe(p, bv, true, false, true, zd);
  int nr = fe.get_nbf(), N = nr * na;
  double tol = std::pow(10.0, -cfg("tole", 8));
  auto blk = [&](MatD &M, int i, int j, const MatD &R) { M.block(i * nr, j * nr, nr, nr) += R; };
  auto one = [](double, int) { return 1.0; };
  if (what == "one") {
    sym_assert((int)tb.Nbf() == N && (int)tb.Nrad() == nr && (int)tb.Nang() == na && (int)tb.Ndummy() == N, "sizes");
    MatD S0 = radint(fe, 0, one), T0 = radint(fe, 1, one), L0 = radint(fe, 0, [](double r, int) { return 1 / (r * r); }), V0 = radint(fe, 0, [](double r, int) { return 1 / r; }), R1 = radint(fe, 0, [](double r, int) { return r; }), R2 = radint(fe, 0, [](double r, int) { return r * r; });
    MatD ov = MatD::Zero(N, N), ki = ov, nu = ov, di = ov, qu = ov, bz = ov; double B = sym_real("B", -2, 2, 0.7);
    std::vector<MatD> off;
    for (int L = 0; L <= 2 * lv.maxCoeff(); L++) off.push_back(radint(fe, 0, [&](double r, int e) { return e < cfg("rb", 1) ? ipow(r, L) / ipow(Rh, L + 1) : ipow(Rh, L) / ipow(r, L + 1); }));
    for (int i = 0; i < na; i++) for (int j = 0; j < na; j++) {
      if (i == j) { blk(ov, i, i, S0); blk(ki, i, i, 0.5 * T0 + (0.5 * lv(i) * (lv(i) + 1)) * L0); blk(nu, i, i, -Z * V0); blk(bz, i, i, (-0.5 * B * mv(i)) * S0); }
      if (mv(i) != mv(j)) continue;
      double c1 = ang(lv(i), lv(j), mv(i), [](double x) { return x; }), c2 = ang(lv(i), lv(j), mv(i), [](double x) { return x * x; }), c0 = i == j;
      blk(di, i, j, c1 * R1); blk(qu, i, j, 0.5 * (3 * c2 - c0) * R2); blk(bz, i, j, (B * B / 8 * (c0 - c2)) * R2);
      // nuclei at z = -Rh (Zl) and z = +Rh (Zr)
      if (Zl || Zr) for (int L = 0; L <= 2 * lv.maxCoeff(); L++) { double a = ang(lv(i), lv(j), mv(i), [&](double x) { return legm(L, 0, x); }); blk(nu, i, j, (-(Zr + (L & 1 ? -1 : 1) * Zl) * a) * off[L]); }
    }
    same(tb.overlap(), ov, tol, "overlap"); same(tb.kinetic(), ki, tol * 10, "kinetic energy"); same(tb.nuclear(), nu, tol * 10, "nuclear attraction");
    same(tb.dipole_z(), di, tol * 10, "dipole"); same(tb.quadrupole_zz(), qu, tol * 100, "quadrupole"); same(tb.Bz_field(B), bz, tol * 100, "magnetic field");
    sym_near(tb.confinement(2, 1.0, 0, 1.0, 0.0).norm(), 0, 0, "no confinement");
    double V = sym_real("V", 0.1, 3, 0.8); MatD cf = MatD::Zero(N, N), c = radint(fe, 0, [&](double r, int) { return r * r; }); for (int i = 0; i < na; i++) blk(cf, i, i, c);
    MatD cc = tb.confinement(2, 1.0, 1, V, 0.0), c4 = tb.confinement(2, 2.0, 1, V, 0.0);
    same(cc, cf, tol * 100, "polynomial confinement"); same(c4, cf * 0.25, tol * 100, "scaled confinement");
    // another basis with a different grid and other channels
    int nel2 = nel + 1; VecD b2(nel2 + 1); for (int i = 0; i <= nel2; i++) b2(i) = s * 0.8 * BETA[i];
    const auto &lm2 = AM[cfg("am2", 2)]; int na2 = lm2.size(); Eigen::VectorXi l2(na2), m2(na2); for (int i = 0; i < na2; i++) { l2(i) = lm2[na2 - 1 - i][0]; m2(i) = lm2[na2 - 1 - i][1]; }
    TB t2(Z, modelpotential::POINT_NUCLEUS, 0.0, p, zd, nq, b2, l2, m2, 0, 0, 0.0); FE f2(p, b2, true, false, true, zd);
    atomic::basis::FEMRadialBasisT<double> r1(fe, nq), r2(f2, nq); MatD X = r1.overlap(r2), O = MatD::Zero(N, na2 * X.cols());
    for (int i = 0; i < na; i++) for (int j = 0; j < na2; j++) if (lv(i) == l2(j) && mv(i) == m2(j)) O.block(i * nr, j * X.cols(), nr, X.cols()) = X;
    same(tb.overlap(t2), O, 1e-9, "overlap between two bases");
  } else if (what == "index") {
    std::map<int, int> ms;
    for (int m = -4; m <= 4; m++) { std::vector<Eigen::Index> e; for (int i = 0; i < na; i++) if (mv(i) == m) for (int k = 0; k < nr; k++) e.push_back(i * nr + k); sym_assert(tb.m_indices(m) == e, "functions of one m");
      for (int l = 0; l < 5; l++) { std::vector<Eigen::Index> f; for (int i = 0; i < na; i++) if (mv(i) == m && lv(i) == l) for (int k = 0; k < nr; k++) f.push_back(i * nr + k); sym_assert(tb.lm_indices(l, m) == f, "functions of one l and m"); } }
    for (int y = 0; y < 3; y++) {
      auto ix = tb.get_sym_idx(y); auto lb = tb.get_sym_labels(y); sym_assert(ix.size() == lb.size(), "a label per block");
      std::vector<int> seen(N, 0); for (auto &b : ix) { for (auto i : b) { sym_assert(i >= 0 && i < N, "in range"); if (i >= 0 && i < N) seen[i]++; } for (size_t k = 1; k < b.size(); k++) { sym_assert(b[k] > b[k - 1], "ascending"); int p0 = b[k - 1] / nr, p1 = b[k] / nr; if (y > 0) sym_assert(mv(p0) == mv(p1), "one m per block"); if (y == 2) sym_assert(lv(p0) == lv(p1), "one l per block"); } }
      for (int i = 0; i < N; i++) sym_assert(seen[i] == 1, "every function in exactly one block");
      for (size_t b = 0; b < ix.size(); b++) if (y && !ix[b].empty()) { int q = ix[b][0] / nr; std::string m = "m=" + std::string(mv(q) > 0 ? "+" : "") + std::to_string(mv(q)); sym_assert(lb[b] == (y == 1 ? m : "l=" + std::to_string(lv(q)) + " " + m), "label"); }
      if (y == 1) for (size_t b = 1; b < ix.size(); b++) sym_assert(mv(ix[b - 1][0] / nr) < mv(ix[b][0] / nr), "ascending m");
    }
    bool t = false; try { tb.get_sym_idx(3); } catch (std::logic_error &) { t = true; } sym_assert(t, "unknown symmetry rejected");
    for (int e = 0; e < nel; e++) { size_t a, b; fe.get_idx(e, a, b); std::vector<Eigen::Index> x; for (int i = 0; i < na; i++) for (size_t k = a; k <= b; k++) x.push_back(i * nr + k); sym_assert(tb.bf_list(e) == x, "functions of one element"); auto rr = tb.radial_element_range(e); sym_assert(rr.first == a && rr.second == b, "range of one element"); }
    sym_assert(tb.get_Z() == Z && tb.get_Zl() == Zl && tb.get_Zr() == Zr && (int)tb.get_rad_Nel() == nel && tb.get_nquad() == nq && tb.get_poly_id() == pb && tb.get_poly_nnodes() == nn && tb.get_zeroder() == zd, "parameters"); sym_near(tb.get_Rhalf(), Rh, 0, "displacement");
    VecD gb = tb.get_bval(); for (int i = 0; i <= nel; i++) sym_near(gb(i), bv(i), 0, "boundaries"); sym_assert(tb.get_lval() == lv && tb.get_mval() == mv, "angular values");
  } else if (what == "sinvh") {
    bool chol = cfg("chol", 1); int y = cfg("sym", 0);
    MatD X = tb.Sinvh(chol, y), Sm = tb.overlap(), I = X.transpose() * Sm * X;
    same(I, MatD(MatD::Identity(N, N)), 1e-8, "orthonormal combinations");
    if (y) { auto ix = tb.get_sym_idx(y); int c = 0; for (auto &b : ix) { std::vector<int> in(N, 0); for (auto i : b) in[i] = 1; for (size_t k = 0; k < b.size(); k++, c++) for (int i = 0; i < N; i++) if (!in[i]) sym_near(X(i, c), 0, 0, "combinations do not mix blocks"); } }
  } else if (what == "jk" || what == "rs") {
    int kind = what == "jk" ? 0 : cfg("kernel", 1);
    double lam = 1, mu = 1;
    if (kind == 1) { lam = sym_real("lam", 0.5, 2, 1.1); il0 = sym_real("i0", 0.5, 2, 1.2); il1 = 0; kl0 = sym_real("k0", 0.5, 2, 0.9); }
    if (kind == 2) { mu = sym_real("mu", 0.5, 1.5, 0.9); ph0 = sym_real("p0", 0.5, 2, 1.2); ph1 = sym_real("p1", -1, 1, 0.3); }
    MatD P(N, N); for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) P(i, j) = P(j, i) = (cfg("pz", 0) && (i / nr + j / nr) % 2) ? 0.0 : sym_real(S("P%d_%d", i, j), -1, 1, 0.3 + 0.1 * (i % 5) - 0.07 * j);
    std::vector<MatD> R; for (int L = 0; L <= 2 * lv.maxCoeff(); L++) {
      Kern k = kind == 0 ? Kern([L](double r, double q) { return ipow(r, L) / ipow(q, L + 1); }) : kind == 1 ? Kern([&, L](double r, double q) { return lam * utils::bessel_il<double>(lam * r, L) * utils::bessel_kl<double>(lam * q, L); }) : Kern([&, L](double r, double q) { return mu / (2 * L + 1) * erfc_expn::Phi<double>(L, mu * r, mu * q); });
      MatD r = slater(fe, k); R.push_back(MatD(4 * M_PI / (kind == 1 ? 1 : 2 * L + 1) * (kind == 2 ? 2 * L + 1 : 1) * r)); }
    // 1/r12 = sum 4 pi/(2L+1) r^L/R^(L+1) Y_LM(1) Y_LM^*(2)
    MatD J = MatD::Zero(N, N), K = J;
    for (int a = 0; a < na; a++) for (int b = 0; b < na; b++) for (int c = 0; c < na; c++) for (int d = 0; d < na; d++) {
      int M = mv(a) - mv(b); if (M != mv(d) - mv(c)) continue;
      for (int L = std::abs(M); L <= 2 * lv.maxCoeff(); L++) {  // [a^* b](1) [c^* d](2)
        double cp = y3(lv(a), mv(a), L, M, lv(b), mv(b)) * y3(lv(d), mv(d), L, M, lv(c), mv(c));
        if (std::fabs(cp) < 1e-12) continue;
        for (int i = 0; i < nr; i++) for (int j = 0; j < nr; j++) for (int k = 0; k < nr; k++) for (int l = 0; l < nr; l++) {
          double v = cp * R[L](j * nr + i, l * nr + k);
          J(a * nr + i, b * nr + j) += v * P(c * nr + k, d * nr + l);
          K(a * nr + i, d * nr + l) -= v * P(b * nr + j, c * nr + k);
        }
      }
    }
    auto thr = [&](const std::function<void()> &f) { try { f(); } catch (std::logic_error &) { return true; } return false; };
    if (kind == 0) {
      sym_assert(thr([&]() { tb.coulomb(P); }) && thr([&]() { tb.exchange(P); }), "integrals must have been computed");
      tb.compute_tei(true);
      same(tb.coulomb(P), J, 1e-6, "Coulomb matrix"); same(tb.exchange(P), K, 1e-6, "exchange matrix");
    } else {
      sym_assert(thr([&]() { tb.rs_exchange(P); }), "integrals must have been computed");
      if (kind == 1) tb.compute_yukawa(lam); else tb.compute_erfc(mu);
      same(tb.rs_exchange(P), K, kind == 2 ? 1e-4 : 1e-6, "range-separated exchange matrix");
    }
  } else if (what == "df") {
    tb.compute_tei(true);
    auto B = tb.radial_df_factors(1e-9);
    sym_assert((int)B.size() == 2 * lv.maxCoeff() + 1, "one set per multipole");
    for (int L = 0; L < (int)B.size(); L++) {
      MatD R = slater(fe, [L](double r, double q) { return ipow(r, L) / ipow(q, L + 1); }), A = MatD::Zero(nr * nr, nr * nr);
      for (auto &b : B[L]) { Eigen::Map<const VecD> v(b.data(), nr * nr); A += v * v.transpose(); }
      same(A, R, 1e-6, S("factors of multipole %d", L));
    }
  } else if (what == "eval") {
    double phi = sym_real("phi", 0, 6, 0.7), x = cfg("xpct", 30) / 100.0;
    double w = std::sqrt(1 - x * x);
    for (int e = 0; e < nel; e++) {
      Eigen::MatrixXcd f = tb.eval_bf(e, x, phi), dr, dt, dp, lf = tb.eval_lf(e, x, phi); tb.eval_df(e, x, phi, dr, dt, dp);
      VecD r = tb.get_r(e), wr = tb.get_wrad(e), xq = atomic::basis::FEMRadialBasisT<double>(fe, nq).get_xq();
      size_t a, b; fe.get_idx(e, a, b); int n = b - a + 1;
      sym_assert(f.rows() == r.size() && f.cols() == n * na, "shape"); 
      for (int q = 0; q < r.size(); q += cfg("stride", 3)) {
        VecD v = val(fe, xq(q), e), v1 = val(fe, xq(q), e, 1), v2 = val(fe, xq(q), e, 2); sym_near(r(q), radc(fe, xq(q), e), 1e-12, "radius");
        for (int A = 0; A < na; A++) {
          int l = lv(A), m = mv(A), am = std::abs(m); double N0 = theta(l, m, x);
          // dTheta/dtheta = -sin(theta) d/dx of (1-x^2)^{|m|/2} P_l^{(|m|)}
          double nrm = std::sqrt((2 * l + 1) / (4 * M_PI) * fact(l - am) / fact(l + am)) * (m > 0 && (m & 1) ? -1 : 1);
          double dth = -w * nrm * (std::pow(w, am) * legm(l, am + 1, x) - am * x * std::pow(w, am - 2) * legm(l, am, x));
          double cr = std::cos(m * phi), ci = std::sin(m * phi);
          for (int k = 0; k < n; k++) {
            double u = v(k) / r(q), u1 = v1(k) / r(q) - v(k) / (r(q) * r(q)), lap = v2(k) / r(q) - l * (l + 1) * v(k) / (r(q) * r(q) * r(q)); int c = A * n + k;
            auto cmp = [&](std::complex<double> z, double amp, const char *nm) { sym_near(z.real(), amp * cr, 1e-8, std::string(nm) + ", real part"); sym_near(z.imag(), amp * ci, 1e-8, std::string(nm) + ", imaginary part"); };
            cmp(f(q, c), u * N0, "value"); cmp(dr(q, c), u1 * N0, "radial derivative"); cmp(dt(q, c), u * dth, "polar derivative"); cmp(lf(q, c) * (r(q) * r(q) * r(q)), lap * N0 * (r(q) * r(q) * r(q)), "Laplacian");
            sym_near(dp(q, c).real(), -m * u * N0 * ci, 1e-8, "azimuthal derivative, real part"); sym_near(dp(q, c).imag(), m * u * N0 * cr, 1e-8, "azimuthal derivative, imaginary part");
          }
        }
      }
    }
  }
}
