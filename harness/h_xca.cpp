// Exchange-correlation on the atomic grid.
#include "h_xc.h"
#include "h_bess.h"
#include <RadialBasis.h>
#include "atomic/TwoDBasis.h"
#include "atomic/dftgrid.h"
#include "general/angular.h"
using namespace helfem;
typedef polynomial_basis::FiniteElementBasisT<double> FE;
typedef atomic::basis::TwoDBasis TB;
static const double BETA[6] = {0, 0.6, 1.7, 3.1, 5, 7};
typedef std::vector<double> Poly;
static Poly legp(int l) { Poly a{1}, b{0, 1}; if (l == 0) return a; for (int k = 1; k < l; k++) { Poly c(k + 2, 0.0); for (size_t i = 0; i < b.size(); i++) c[i + 1] += (2 * k + 1) * b[i] / (k + 1); for (size_t i = 0; i < a.size(); i++) c[i] -= k * a[i] / (k + 1); a = b; b = c; } return b; }
static double legm(int l, int a, double x) { Poly p = legp(l); for (int i = 0; i < a; i++) { Poly d; for (size_t k = 1; k < p.size(); k++) d.push_back(k * p[k]); p = d; if (p.empty()) p.push_back(0); } double v = 0; for (int i = (int)p.size() - 1; i >= 0; i--) v = v * x + p[i]; return v; }
static void same(const MatD &A, const MatD &B, double tol, const std::string &l) {
  sym_assert(A.rows() == B.rows() && A.cols() == B.cols(), l + ": shape");
  if (A.rows() != B.rows() || A.cols() != B.cols()) return;
  for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) sym_near(A(i, j), B(i, j), tol, l + S(" (%d,%d)", i, j));
}
void sym_main() {
  static const std::vector<std::vector<std::array<int, 2>>> AM = {{{0, 0}}, {{1, 1}, {0, 0}}, {{1, -1}, {1, 1}}, {{2, 1}, {1, 0}}};
  const auto &lm = AM[cfg("am", 1)]; int na = lm.size(); Eigen::VectorXi lv(na), mv(na); for (int i = 0; i < na; i++) { lv(i) = lm[i][0]; mv(i) = lm[i][1]; }
  int nel = cfg("nel", 2), nq = cfg("nquad", 4), lang = cfg("lang", 2), mang = cfg("mang", 3);
  VecD bv(nel + 1); for (int i = 0; i <= nel; i++) bv(i) = BETA[i];
  std::shared_ptr<const polynomial_basis::PolynomialBasisT<double>> p(polynomial_basis::get_basis(cfg("primbas", 4), cfg("nnodes", 2)));
  TB tb(2, modelpotential::POINT_NUCLEUS, 0.0, p, false, nq, bv, lv, mv, 0, 0, 0.0);
  FE fe(p, bv, true, false, true, false); int nr = fe.get_nbf(), N = nr * na;
  // points
  VecD cth, phi, wang; angular::angular_chebyshev(lang, mang, cth, phi, wang);
  atomic::basis::FEMRadialBasisT<double> rb(fe, nq); VecD xq = rb.get_xq();
  std::vector<Pt> pts;
  for (int e = 0; e < nel; e++) { VecD r = tb.get_r(e), wr = tb.get_wrad(e); size_t i0, i1; fe.get_idx(e, i0, i1); int n = i1 - i0 + 1;
    for (int q = 0; q < r.size(); q++) { VecD v = fe.eval_dnf(vec1(xq(q)), 0, e).row(0).transpose(), v1 = fe.eval_dnf(vec1(xq(q)), 1, e).row(0).transpose(), v2 = fe.eval_dnf(vec1(xq(q)), 2, e).row(0).transpose();
      for (int g = 0; g < wang.size(); g++) {
        double x = cth(g), w = std::sqrt(1 - x * x), R = r(q); Pt P; P.w = wang(g) * wr(q) * R * R; P.a = P.b = P.la = P.lb = VecD::Zero(N); for (int c = 0; c < 3; c++) P.ga[c] = P.gb[c] = VecD::Zero(N);
        for (int A = 0; A < na; A++) {
          int l = lv(A), m = mv(A), am = std::abs(m); double nrm = std::sqrt((2 * l + 1) / (4 * M_PI) * fact(l - am) / fact(l + am)) * (m > 0 && (m & 1) ? -1 : 1);
          double th = nrm * std::pow(w, am) * legm(l, am, x), dth = -w * nrm * (std::pow(w, am) * legm(l, am + 1, x) - am * x * std::pow(w, am - 2) * legm(l, am, x)), cr = std::cos(m * phi(g)), ci = std::sin(m * phi(g));
          for (int k = 0; k < n; k++) {
            int i = A * nr + i0 + k; double u = v(k) / R, u1 = v1(k) / R - v(k) / (R * R), lap = v2(k) / R - l * (l + 1) * v(k) / (R * R * R);
            P.a(i) = u * th * cr; P.b(i) = u * th * ci; P.la(i) = lap * th * cr; P.lb(i) = lap * th * ci;
            P.ga[0](i) = u1 * th * cr; P.gb[0](i) = u1 * th * ci; P.ga[1](i) = u * dth / R * cr; P.gb[1](i) = u * dth / R * ci;
            P.ga[2](i) = -m * u * th / (R * w) * ci; P.gb[2](i) = m * u * th / (R * w) * cr;
          }
        }
        pts.push_back(P);
      } } }
  xc_setup();
  int x = cfg("x", 2), c = cfg("c", 0); double sx = 1, sc = 1; VecD px, pc; double thr = sym_real("thr", 1e-14, 1e-9, 1e-11);
  if (cfg("xp", 0)) { sx = sym_real("sx", -2, 2, 0.8); px = vec1(sx); }
  if (cfg("cp", 0)) { sc = sym_real("sc", -2, 2, 1.3); pc = vec1(sc); }
  double tol = std::pow(10.0, -cfg("tole", 6));
  atomic::dftgrid::DFTGrid grid(&tb, lang, mang);
  MatD Pa = sym_density("P", N, cfg("mask", 0)), Pb = cfg("pol", 1) ? sym_density("Q", N, cfg("mask", 0)) : MatD(Pa);
  XcRef R = xc_ref(pts, Pa, Pb, {{x, sx}, {c, sc}});
  double Ex, Ne, Ek; MatD Ha, Hb;
  if (cfg("pol", 1)) {
    int beta = cfg("beta", 1);
    grid.eval_Fxc(x, px, c, pc, Pa, Pb, Ha, Hb, Ex, Ne, Ek, beta, thr);
    same(Ha, R.Ha, tol, "potential matrix, first spin");
    same(Hb, beta ? R.Hb : MatD(MatD::Zero(N, N)), tol, "potential matrix, second spin");
  } else {
    grid.eval_Fxc(x, px, c, pc, MatD(2 * Pa), Ha, Ex, Ne, Ek, thr);
    same(Ha, MatD(0.5 * (R.Ha + R.Hb)), tol, "potential matrix");
  }
  sym_near(Ex, R.E, tol, "exchange-correlation energy"); sym_near(Ne, R.N, tol, "number of electrons"); sym_near(Ek, R.T, tol, "kinetic energy");
  for (int id : {x, c}) if (id > 0) { sym_assert(xcs::ncalls[id] > 0, "functional is evaluated"); sym_near(xcs::last_thr[id], thr, 0, "density threshold"); }
}
