// Exchange-correlation on the diatomic grids.
#include "h_xc.h"
#include "h_ang.h"
#include "diatomic/basis.h"
#include "diatomic/dftgrid.h"
#include "diatomic/dftgrid_purem.h"
#include "general/angular.h"
#include "chebyshev.h"
using namespace helfem;
typedef polynomial_basis::FiniteElementBasis FE;
typedef diatomic::basis::TwoDBasis TB;
static const double BETA[6] = {0, 0.7, 1.5, 2.2, 3, 4};
void sym_main() {
  static const std::vector<std::vector<std::array<int, 2>>> AM = {{{0, 0}}, {{1, 1}, {0, 0}}, {{1, -1}, {1, 1}}, {{2, 1}, {1, 0}}, {{0, 0}, {1, 0}}, {{0, 0}, {1, 1}, {1, -1}}, {{1, 1}, {2, -1}}, {{2, 2}, {2, -2}}, {{1, -1}, {2, -1}, {1, 1}, {2, 1}}, {{1, -1}, {2, -1}, {2, 1}, {1, 1}}};
  const auto &lm = AM[cfg("am", 1)]; int na = lm.size(); Eigen::VectorXi lv(na), mv(na); for (int i = 0; i < na; i++) { lv(i) = lm[i][0]; mv(i) = lm[i][1]; }
  int nel = cfg("nel", 2), nq = cfg("nquad", 3), lang = cfg("lang", 2), mang = cfg("mang", 3), pure = cfg("pure", 0);
  VecD bv(nel + 1); for (int i = 0; i <= nel; i++) bv(i) = BETA[i];
  double Rh = cfg("rsym", 1) ? sym_real("R", 0.3, 3, 1.2) : 1.2;
  std::shared_ptr<const polynomial_basis::PolynomialBasis> p(polynomial_basis::get_basis(cfg("primbas", 4), cfg("nnodes", 2)));
  TB tb(2, 1, Rh, p, nq, bv, lv, mv, true);
  FE fe(p, bv, false, false, true, true); int nr = fe.get_nbf();
  std::vector<int> pos(na * nr, -1); std::vector<int> pm; int N = 0; for (int i = 0; i < na; i++) for (int k = mv(i) ? 1 : 0; k < nr; k++) { pos[i * nr + k] = N++; pm.push_back(mv(i)); }
  VecD cth, phi, wang;
  if (pure) { chebyshev::chebyshev(lang, cth, wang); phi = VecD::Zero(cth.size()); wang *= 2 * M_PI; } else angular::angular_chebyshev(lang, mang, cth, phi, wang);
  std::vector<Pt> pts;
  for (int e = 0; e < nel; e++) { VecD mu = tb.get_r(e), wr = tb.get_wrad(e); size_t i0, i1; fe.get_idx(e, i0, i1); int n = i1 - i0 + 1;
    for (int q = 0; q < mu.size(); q++) { double xi = 2 * (mu(q) - bv(e)) / (bv(e + 1) - bv(e)) - 1, sh = std::sinh(mu(q)), ch = std::cosh(mu(q));
      VecD v = fe.eval_dnf(vec1(xi), 0, e).row(0).transpose(), v1 = fe.eval_dnf(vec1(xi), 1, e).row(0).transpose(), v2 = fe.eval_dnf(vec1(xi), 2, e).row(0).transpose();
      for (int g = 0; g < wang.size(); g++) {
        double x = cth(g), w = std::sqrt(1 - x * x), hq = std::sqrt(sh * sh + w * w); Pt P; P.w = wang(g) * wr(q) * (sh * hq * hq) * (Rh * Rh * Rh); P.a = P.b = P.la = P.lb = VecD::Zero(N); for (int c = 0; c < 3; c++) P.ga[c] = P.gb[c] = VecD::Zero(N);
        double ih = 1 / Rh, ih2 = ih * ih;
        for (int A = 0; A < na; A++) { int l = lv(A), m = mv(A); double t0 = theta(l, m, x), tx = theta_x(l, m, x), txx = theta_xx(l, m, x), cr = std::cos(m * phi(g)), ci = std::sin(m * phi(g));
          for (int k = 0; k < n; k++) { int i = pos[A * nr + i0 + k]; if (i < 0) continue;
            double u = v(k) * t0, um = v1(k) * t0, un = -w * v(k) * tx, lap = ((v2(k) + ch / sh * v1(k)) * t0 + v(k) * ((1 - x * x) * txx - 2 * x * tx)) / (hq * hq) - u * m * m / (sh * sh * w * w);
            P.a(i) = u * cr; P.b(i) = u * ci; P.la(i) = lap * cr * ih2; P.lb(i) = lap * ci * ih2;
            P.ga[0](i) = um / hq * cr * ih; P.gb[0](i) = um / hq * ci * ih; P.ga[1](i) = un / hq * cr * ih; P.gb[1](i) = un / hq * ci * ih;
            P.ga[2](i) = -m * u / (sh * w) * ci * ih; P.gb[2](i) = m * u / (sh * w) * cr * ih; } }
        pts.push_back(P);
      } } }
  xc_setup();
  int x = cfg("x", 2), c = cfg("c", 0); double sx = 1, sc = 1; VecD px, pc; double thr = sym_real("thr", 1e-14, 1e-9, 1e-11);
  if (cfg("xp", 0)) { sx = sym_real("sx", -2, 2, 0.8); px = vec1(sx); }
  if (cfg("cp", 0)) { sc = sym_real("sc", -2, 2, 1.3); pc = vec1(sc); }
  double tol = std::pow(10.0, -cfg("tole", 6)), Ex, Ne, Ek; MatD Ha, Hb; bool pol = cfg("pol", 1), beta = cfg("beta", 1);
  auto block = [&](MatD M) { if (pure) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (pm[i] != pm[j]) M(i, j) = 0; return M; };
  MatD Pa = block(sym_density("P", N, cfg("mask", 0))), Pb = pol ? block(sym_density("Q", N, cfg("mask", 0))) : MatD(Pa);
  if (cfg("absm", 0)) { tb.set_absm_symmetric(true); auto mir = [&](MatD &M) { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (pm[i] < 0 && pm[j] < 0) { auto par = [&](int i) { for (int A = 0; A < na; A++) for (int k = 0; k < nr; k++) if (pos[A * nr + k] == i) for (int B = 0; B < na; B++) if (lv(B) == lv(A) && mv(B) == -mv(A)) return pos[B * nr + k]; return -1; }; M(i, j) = M(par(i), par(j)); } }; mir(Pa); mir(Pb); }
  diatomic::dftgrid::DFTGrid g3(&tb, lang, mang); diatomic::dftgrid_purem::PureMDFTGrid g2(&tb, lang);
  auto run = [&]() {
    if (pol) { if (pure) g2.eval_Fxc(x, px, c, pc, Pa, Pb, Ha, Hb, Ex, Ne, Ek, beta, thr); else g3.eval_Fxc(x, px, c, pc, Pa, Pb, Ha, Hb, Ex, Ne, Ek, beta, thr); }
    else { if (pure) g2.eval_Fxc(x, px, c, pc, MatD(2 * Pa), Ha, Ex, Ne, Ek, thr); else g3.eval_Fxc(x, px, c, pc, MatD(2 * Pa), Ha, Ex, Ne, Ek, thr); }
  };
  if (!pure && (xcs::lapl(x) || xcs::lapl(c))) { bool t = false; try { run(); } catch (std::logic_error &) { t = true; } sym_assert(t, "unsupported functional is refused"); return; }
  XcRef R = xc_ref(pts, Pa, Pb, {{x, sx}, {c, sc}});
  run();
  if (pol) { same(Ha, block(R.Ha), tol, "potential matrix, first spin"); same(Hb, beta ? block(R.Hb) : MatD(MatD::Zero(N, N)), tol, "potential matrix, second spin"); }
  else same(Ha, block(MatD(0.5 * (R.Ha + R.Hb))), tol, "potential matrix");
  sym_near(Ex, R.E, tol, "exchange-correlation energy"); sym_near(Ne, R.N, tol, "number of electrons"); sym_near(Ek, R.T, tol, "kinetic energy");
  for (int id : {x, c}) if (id > 0) { sym_assert(xcs::ncalls[id] > 0, "functional is evaluated"); sym_near(xcs::last_thr[id], thr, 0, "density threshold"); }
}
