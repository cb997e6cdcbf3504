// Two-centre quadrature of the diatomic program: potentials on both nuclei and projections of atomic functions.
// The analytic radial functions and the atomic solver are replaced by stand-ins with symbolic coefficients.
#include "h_ang.h"
#include "diatomic/twodquadrature.h"
#include "sadatom/scf.h"
#include "chebyshev.h"
using namespace helfem;
typedef polynomial_basis::FiniteElementBasis FE;
typedef diatomic::basis::TwoDBasis TB;
static const double BETA[6] = {0, 0.7, 1.5, 2.2, 3, 4};
static double G0 = 1, G1 = 0, S0 = 1, S1 = 0;
static double radf(double r, int l, double a, double c0, double c1) { return ipow(r, l) * (c0 + c1 * a * r * r); }
namespace helfem { namespace lcao {
double radial_GTO(double r, int l, double a) { return radf(r, l, a, G0, G1); }
double radial_STO(double r, int l, double a) { return radf(r, l, a, S0, S1); }
} }
static std::vector<sadatom::scf::AtomicSCFOptions> runs; static sadatom::scf::AtomicSCFResult ans[2];
namespace helfem { namespace sadatom { namespace scf { AtomicSCFResult run_atomic_scf(const AtomicSCFOptions &o) { runs.push_back(o); return ans[runs.size() - 1]; } } } }
struct Pot : modelpotential::ModelPotential { double a, b, c; double V(double r) const override { return a + b * r * r + c / r; } };
template <class F> static bool throws(F f) { try { f(); } catch (std::exception &) { return true; } return false; }
void sym_main() {
  std::string what = cfgs("what", "pot"); int pb = cfg("primbas", 4), nn = cfg("nnodes", 3), nel = cfg("nel", 2), nq = cfg("nquad", 30), lang = cfg("lang", 40); ref_gauss(cfg("ng", 20), gx, gw);
  static const std::vector<std::vector<std::array<int, 2>>> AM = {{{0, 0}}, {{0, 0}, {1, 0}}, {{0, 0}, {1, 0}, {1, 1}, {1, -1}}, {{1, -1}, {1, 1}, {2, 1}}, {{0, 0}, {2, 2}, {2, 0}, {1, 1}}};
  const auto &lm = AM[cfg("am", 2)]; int na = lm.size(); Eigen::VectorXi lv(na), mv(na); for (int i = 0; i < na; i++) { lv(i) = lm[i][0]; mv(i) = lm[i][1]; }
  double Rh = cfg("rsym", 1) ? sym_real("R", 0.3, 3, 1.2) : 1.2; VecD bv(nel + 1); for (int i = 0; i <= nel; i++) bv(i) = BETA[i];
  std::shared_ptr<const polynomial_basis::PolynomialBasis> p(polynomial_basis::get_basis(pb, nn));
  TB tb(3, 1, Rh, p, nq, bv, lv, mv, false); FE fe(p, bv, false, false, true, true); int nr = fe.get_nbf();
  std::vector<int> pa, pr; for (int i = 0; i < na; i++) for (int k = mv(i) ? 1 : 0; k < nr; k++) { pa.push_back(i); pr.push_back(k); }
  int N = pa.size(); diatomic::twodquad::TwoDGrid g(&tb, lang);
  struct Pt { double mu, x, w; VecD f; }; std::vector<Pt> pts;   // w: volume element without R^3
  for (int e = 0; e < nel; e++) for (size_t q = 0; q < gx.size(); q++) { Pt t; t.f = VecD::Zero(nr); double h = 0.5 * (bv(e + 1) - bv(e)); t.mu = bv(e) + h * (gx[q] + 1); size_t a, b; fe.get_idx(e, a, b); t.f.segment(a, b - a + 1) = fe.eval_dnf(vec1(gx[q]), 0, e).row(0).transpose();
    for (size_t k = 0; k < gx.size(); k++) { t.x = gx[k]; t.w = 2 * M_PI * gw[q] * h * gw[k] * std::sinh(t.mu) * (std::cosh(t.mu) * std::cosh(t.mu) - t.x * t.x); pts.push_back(t); } }
  auto r1 = [](const Pt &t) { return std::cosh(t.mu) + t.x; }; auto r2 = [](const Pt &t) { return std::cosh(t.mu) - t.x; };
  double R3 = Rh * Rh * Rh, tol = std::pow(10.0, -cfg("tole", 8));
  if (what == "pot") {
    Pot A, B; const char *nm = "abcdef"; double c[6]; for (int i = 0; i < 6; i++) c[i] = sym_real(std::string(1, nm[i]), -2, 2, 0.3 + 0.2 * i); A.a = c[0]; A.b = c[1]; A.c = c[2]; B.a = c[3]; B.b = c[4]; B.c = c[5];
    MatD V = g.model_potential(&A, &B), M = MatD::Zero(N, N);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { if (mv(pa[i]) != mv(pa[j])) continue; double s0 = 0, s1 = 0, s2 = 0, s3 = 0, s4 = 0;
      for (auto &t : pts) { double v = t.w * t.f(pr[i]) * t.f(pr[j]) * theta(lv(pa[i]), mv(pa[i]), t.x) * theta(lv(pa[j]), mv(pa[j]), t.x); if (v == 0) continue; s0 += v; s1 += v * r1(t) * r1(t); s2 += v / r1(t); s3 += v * r2(t) * r2(t); s4 += v / r2(t); }
      M(i, j) = R3 * ((A.a + B.a) * s0 + Rh * Rh * (A.b * s1 + B.b * s3) + (A.c * s2 + B.c * s4) / Rh); }
    same(V, M, tol * 100, "two-centre potential");
  } else if (what == "proj") {
    int l = cfg("l", 1), m = cfg("m", 0); G0 = sym_real("g0", -2, 2, 0.6); G1 = sym_real("g1", -2, 2, 0.4); S0 = sym_real("s0", -2, 2, 0.3); S1 = sym_real("s1", -2, 2, -0.7); VecD ex(2); ex << 0.9, 0.4;
    using namespace diatomic::twodquad;
    for (probe_t pr_ : {PROBE_LEFT, PROBE_MIDDLE, PROBE_RIGHT}) for (int st = 0; st < 2; st++) {
      MatD Pm = st ? g.sto_projection(l, m, ex, pr_) : g.gto_projection(l, m, ex, pr_), O = st ? g.sto_overlap(l, m, ex, pr_) : g.gto_overlap(l, m, ex, pr_); double c0 = st ? S0 : G0, c1 = st ? S1 : G1;
      // distance from the centre and polar angle there (z axis from left to right; the right-hand function is mirrored)
      auto geo = [&](const Pt &t, double &r, double &ct) { double ch = std::cosh(t.mu), z = ch * t.x; if (pr_ == PROBE_LEFT) { r = r1(t); ct = (z + 1) / r; } else if (pr_ == PROBE_RIGHT) { r = r2(t); ct = (1 - z) / r; } else { r = std::sqrt(ch * ch + t.x * t.x - 1); ct = z / r; } };
      MatD M0 = MatD::Zero(1, N), M1 = M0, O0 = MatD::Zero(1, 3); int am = std::abs(m);
      for (auto &t : pts) { double r, ct; geo(t, r, ct); double y = ipow(r, l) * theta(l, am, std::max(-1.0, std::min(1.0, ct)));
        O0(0, 0) += t.w * y * y; O0(0, 1) += t.w * y * y * r * r; O0(0, 2) += t.w * y * y * ipow(r, 4);
        for (int i = 0; i < N; i++) if (mv(pa[i]) == m) { double v = t.w * y * t.f(pr[i]) * theta(lv(pa[i]), mv(pa[i]), t.x); M0(0, i) += v; M1(0, i) += v * r * r; } }
      // an overall sign of the angular function is a convention
      double Rl = 1; for (int i = 0; i < l; i++) Rl *= Rh; double sg = cfg("sign", 1);
      MatD ref(2, N), oref(2, 2); double R2 = Rh * Rh; for (int k = 0; k < 2; k++) { for (int i = 0; i < N; i++) ref(k, i) = sg * R3 * Rl * (c0 * M0(0, i) + c1 * ex(k) * R2 * M1(0, i)); for (int q = 0; q < 2; q++) oref(k, q) = R3 * Rl * Rl * (c0 * c0 * O0(0, 0) + c0 * c1 * (ex(k) + ex(q)) * R2 * O0(0, 1) + c1 * c1 * ex(k) * ex(q) * R2 * R2 * O0(0, 2)); }
      std::string nm = S(st ? "Slater, probe %d" : "Gaussian, probe %d", (int)pr_); double big = 1 + 30 * l;
      for (auto &q : {0}) { (void)q; double sc = 1 / (Rl * R3 * R2); same(MatD(Pm * sc), MatD(ref * sc), tol * 10 * big * cfg("sc", 1), nm + " projection"); double so = sc / (Rl * R2); same(MatD(O * so), MatD(oref * so), tol * 1000 * big * cfg("sc", 1), nm + " overlap"); }
    }
  } else if (what == "atoms") {
    // stand-in atoms: lmax 1, s and p orbitals with symbolic coefficients, different on the two sides
    using namespace diatomic::twodquad; double s = 1.0; VecD ab(3); ab << 0, 0.8 * s, 30 * s; std::shared_ptr<const polynomial_basis::PolynomialBasis> ap(polynomial_basis::get_basis(4, 3)); atomic::basis::FEMRadialBasis rb(FE(ap, ab, true, false, true, false), 8); int n = rb.Nbf();
    MatD C[2][2]; static const int OCS[2][2][2] = {{{3, 7}, {2, 0}}, {{2, 1}, {4, 6}}}; auto OC = OCS[cfg("oc", 0)];
    for (int sd = 0; sd < 2; sd++) { ans[sd].basis = sadatom::basis::TwoDBasis(sd ? 2 : 10, modelpotential::POINT_NUCLEUS, 0.0, ap, false, 8, ab, 1); ans[sd].orbs_a.resize(2); ans[sd].occs_a.resize(2); for (int l = 0; l < 2; l++) { C[sd][l].resize(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) C[sd][l](i, j) = sym_real(S("c%d%d_%d%d", sd, l, i, j), -1, 1, 0.2 + 0.1 * i - 0.2 * j + 0.3 * sd); ans[sd].orbs_a[l] = C[sd][l]; ans[sd].occs_a(l) = OC[sd][l]; } }
    g.compute_atoms(10, 2); sym_assert(runs.size() == 2 && runs[0].Z == 10 && runs[1].Z == 2, "one solution per nucleus");
    for (int sd = 0; sd < 2; sd++) for (int l = 0; l <= 2; l++) for (int m : {0, 1, -1}) { if (std::abs(m) > l) continue;
      MatD P = g.atomic_projection(l, m, sd ? PROBE_RIGHT : PROBE_LEFT); int no = l < 2 ? (OC[sd][l] + 4 * l + 1) / (4 * l + 2) : 0;
      sym_assert(no ? P.rows() == no && P.cols() == N : P.size() == 0, "occupied orbitals only"); if (!no || P.rows() != no || P.cols() != N) continue;
      // same quadrature rule as the program: points and weights are decided elsewhere
      VecD cth, w; chebyshev::chebyshev(lang, cth, w); MatD ref = MatD::Zero(no, N);
      for (int e = 0; e < nel; e++) { VecD mu = tb.get_r(e), wm = tb.get_wrad(e); for (int q = 0; q < mu.size(); q++) { size_t a, b; fe.get_idx(e, a, b); double xr = 2 * (mu(q) - bv(e)) / (bv(e + 1) - bv(e)) - 1; VecD f = VecD::Zero(nr); f.segment(a, b - a + 1) = fe.eval_dnf(vec1(xr), 0, e).row(0).transpose();
        for (int k = 0; k < lang; k++) { double ch = std::cosh(mu(q)), rr = Rh * (sd ? ch - cth(k) : ch + cth(k)), ct = sd ? (1 - ch * cth(k)) / (ch - cth(k)) : (1 + ch * cth(k)) / (ch + cth(k)); VecD o = rb.eval_orbs(MatD(C[sd][l].leftCols(no)), rr); double v = 2 * M_PI * wm(q) * w(k) * R3 * std::sinh(mu(q)) * (ch * ch - cth(k) * cth(k)) * theta(l, std::abs(m), std::max(-1.0, std::min(1.0, ct)));
          for (int i = 0; i < N; i++) if (mv(pa[i]) == m) for (int j = 0; j < no; j++) ref(j, i) += v * o(j) * f(pr[i]) * theta(lv(pa[i]), m, cth(k)); } } }
      same(P, ref, 1e-7, S("atomic projection, side %d l %d m %d", sd, l, m)); }
    sym_assert(throws([&] { g.atomic_projection(0, 0, PROBE_MIDDLE); }), "no atom on the bond centre");
  } else if (what == "occ") {
    int lo = cfg("lo", 1), hi = cfg("hi", 118), Z = sym_int("Z", lo, hi, lo); g.compute_atoms(Z, 0); sym_assert(runs.size() == 1, "only the existing nucleus"); if (runs.size() != 1) return;
    auto &o = runs[0]; double tot = 0; sym_assert(o.Z == Z && o.fixed_per_l_a.size() == o.lmax + 1 && o.restricted, "options"); for (int l = 0; l < o.fixed_per_l_a.size(); l++) { double v = o.fixed_per_l_a(l); sym_assert(v >= 0, "no negative occupation"); tot += v; } sym_near(tot, Z, 1e-9, "neutral atom"); if (o.fixed_per_l_a.size()) sym_assert(o.fixed_per_l_a(o.lmax) > 0, "no empty highest shell");
  }
}
