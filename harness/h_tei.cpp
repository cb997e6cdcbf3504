// Two-electron radial integrals and Coulomb/exchange assembly.  The special
// functions behind the screened kernels are replaced by monomials with symbolic
// coefficients (they are decided on their own in h_spec.cpp).
#include "hutil.h"
#include "h_bess.h"
#include <RadialBasis.h>
#include <CoulombExchangeFE.h>
#include "quadrature.h"
using namespace helfem;
typedef polynomial_basis::FiniteElementBasisT<double> FE;
typedef atomic::basis::FEMRadialBasisT<double> RB;
typedef std::function<double(double, double)> Kern;  // (smaller, larger)
static const double BETA[3][6] = {{0, 0.4, 1.1, 2.3, 4, 7}, {0, 1, 2, 3, 4, 5}, {0, 2, 2.5, 4, 7, 8}};
static std::vector<double> gx, gw;
static VecD val(const FE &fe, double x, int e) { return fe.eval_dnf(vec1(x), 0, e).row(0).transpose(); }
static double rad(const FE &fe, double x, int e) { return fe.element_begin(e) + 0.5 * (x + 1) * (fe.element_end(e) - fe.element_begin(e)); }
static MatD pairs(const VecD &f) { int n = f.size(); MatD p(n * n, 1); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) p(j * n + i, 0) = f(i) * f(j); return p; }
// (ab|cd) with both pairs in elements e and g; split at the diagonal when e == g
static MatD ref(const FE &fe, int e, int g, const Kern &k) {
  double Je = 0.5 * (fe.element_end(e) - fe.element_begin(e)), Jg = 0.5 * (fe.element_end(g) - fe.element_begin(g));
  int ne = fe.get_nprim(e), ng = fe.get_nprim(g);
  MatD M = MatD::Zero(ne * ne, ng * ng);
  size_t n = gx.size();
  for (size_t q = 0; q < n; q++) {
    MatD a = pairs(val(fe, gx[q], e)); double ra = rad(fe, gx[q], e);
    VecD in = VecD::Zero(ng * ng);
    for (size_t p = 0; p < n; p++) {
      double x = e == g ? -1 + 0.5 * (gx[q] + 1) * (gx[p] + 1) : gx[p], w = gw[p] * (e == g ? 0.5 * (gx[q] + 1) : 1.0);
      double rb = rad(fe, x, g);
      in += (w * Jg * (e >= g ? k(rb, ra) : k(ra, rb))) * pairs(val(fe, x, g)).col(0);
    }
    M += (gw[q] * Je) * (a.col(0) * in.transpose());
  }
  return e == g ? MatD(M + M.transpose()) : M;
}
static void same(const MatD &A, const MatD &B, double tol, const std::string &l) {
  sym_assert(A.rows() == B.rows() && A.cols() == B.cols(), l + ": shape");
  if (A.rows() != B.rows() || A.cols() != B.cols()) return;
  for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) sym_near(A(i, j), B(i, j), tol, l + S(" (%d,%d)", i, j));
}
void sym_main() {
  std::string what = cfgs("what", "tei");
  int pb = cfg("primbas", 4), nn = cfg("nnodes", 3), nel = cfg("nel", 3), nq = cfg("nquad", 12), L = cfg("L", 1);
  ref_gauss(cfg("ng", 16), gx, gw);
  double s = cfg("geo", 1) ? sym_real("s", 0.7, 1.5, 1.0) : 1.0;
  VecD bv(nel + 1); for (int i = 0; i <= nel; i++) bv(i) = s * BETA[cfg("beta", 0)][i];
  std::shared_ptr<const polynomial_basis::PolynomialBasisT<double>> p(polynomial_basis::get_basis(pb, nn));
  FE fe(p, bv, true, false, cfg("f2", 1), false);
  RB rb(fe, nq);
  double tol = std::pow(10.0, -cfg("tole", 8));
  Kern coul = [L](double r, double R) { return ipow(r, L) / ipow(R, L + 1); };
  double lam = 1;
  Kern yuk = [&](double r, double R) { return utils::bessel_il<double>(lam * r, L) * utils::bessel_kl<double>(lam * R, L); };
  double mu = 1;
  Kern erf_ = [&](double r, double R) { return erfc_expn::Phi<double>(L, mu * r, mu * R); };
  auto stubs = [&]() { lam = sym_real("lam", 0.5, 2, 1.1); il0 = sym_real("i0", 0.5, 2, 1.2); il1 = cfg("mono", 0) ? 0.0 : sym_real("i1", -1, 1, 0.3); kl0 = sym_real("k0", 0.5, 2, 0.9); };
  if (what == "tei") {
    for (int e = 0; e < nel; e++) {
      MatD T = rb.twoe_integral(L, e);
      same(T, ref(fe, e, e, coul), tol, S("Coulomb block of element %d", e));
      for (int i = 0; i < T.rows(); i++) for (int j = 0; j < i; j++) sym_near(T(i, j), T(j, i), 1e-11, "exchange of the two electrons");
    }
  } else if (what == "yuk") {
    stubs();
    for (int e = 0; e < nel; e++) {
      same(rb.yukawa_integral(L, lam, e), ref(fe, e, e, yuk), tol * 10, S("screened block of element %d", e));
      int n = fe.get_nprim(e); double J = 0.5 * (bv(e + 1) - bv(e));
      MatD I = MatD::Zero(n, n), K = I;
      for (size_t q = 0; q < gx.size(); q++) { VecD f = val(fe, gx[q], e); double r = rad(fe, gx[q], e); MatD o = f * f.transpose(); I += gw[q] * J * utils::bessel_il<double>(lam * r, L) * o; K += gw[q] * J * utils::bessel_kl<double>(lam * r, L) * o; }
      same(rb.bessel_il_integral(L, lam, e), I, tol, "regular screened moment");
      if (e > 0) same(rb.bessel_kl_integral(L, lam, e), K, tol, "irregular screened moment");
    }
  } else if (what == "erfc") {
    mu = sym_real("mu", 0.5, 1.5, 0.9); ph0 = sym_real("p0", 0.5, 2, 1.2); ph1 = sym_real("p1", -1, 1, 0.3);
    for (int e = 0; e < nel; e++) for (int g = 0; g < nel; g++) same(rb.erfc_integral(L, mu, e, g), ref(fe, e, g, erf_), tol, S("range-separated block of elements %d and %d", e, g));
  } else if (what == "chol") {
    double thr = 1e-9;
    for (int e = 0; e < nel; e++) {
      MatD T = rb.twoe_integral(L, e), C = rb.twoe_integral_cholesky(L, e, thr);
      int n = fe.get_nprim(e);
      sym_assert(C.rows() == n * n && C.cols() <= n * (n + 1) / 2, "shape of the factor");
      same(MatD(C * C.transpose()), T, 1e-7, S("Cholesky factor of element %d", e));
    }
    if (cfg("y", 0)) { stubs(); for (int e = 1; e < nel; e++) { MatD T = rb.yukawa_integral(L, lam, e), C = rb.yukawa_integral_cholesky(L, lam, e, thr); same(MatD(C * C.transpose()), T, 1e-6, "Cholesky factor of the screened block"); } }
  } else if (what == "pot") {  // potential of pair densities at the quadrature points
    for (int e = 0; e < nel; e++) {
      MatD V = rb.spherical_potential(e);
      VecD x = rb.get_xq(); int n = fe.get_nprim(e);
      sym_assert(V.rows() == x.size() && V.cols() == n * n, "shape");
      double J = 0.5 * (bv(e + 1) - bv(e));
      for (int q = 0; q < x.size(); q += cfg("stride", 1)) {
        double R = rad(fe, x(q), e); VecD in = VecD::Zero(n * n), out = in;
        for (size_t g = 0; g < gx.size(); g++) {
          double hl = 0.5 * (x(q) + 1), hr = 0.5 * (1 - x(q)), xl = -1 + hl * (gx[g] + 1), xr = 1 - hr * (1 - gx[g]);
          in += (gw[g] * J * hl) * pairs(val(fe, xl, e)).col(0); out += (gw[g] * J * hr / rad(fe, xr, e)) * pairs(val(fe, xr, e)).col(0);
        }
        for (int i = 0; i < n * n; i++) sym_near(R * V(q, i), in(i) + R * out(i), tol * 100, S("potential in element %d", e));
      }
    }
  } else if (what == "perm") {  // exchange ordering of a symbolic tensor
    int N[4] = {cfg("Ni", 2), cfg("Nj", 2), cfg("Nk", 2), cfg("Nl", 2)};
    MatD T(N[0] * N[1], N[2] * N[3]);
    for (int i = 0; i < T.rows(); i++) for (int j = 0; j < T.cols(); j++) T(i, j) = sym_real(S("t%d_%d", i, j), -2, 2, 0.1 * i - 0.2 * j + 0.03 * i * j);
    MatD X = utils::exchange_tei<double>(T, N[0], N[1], N[2], N[3]);
    sym_assert(X.rows() == N[1] * N[2] && X.cols() == N[0] * N[3], "shape");
    for (int i = 0; i < N[0]; i++) for (int j = 0; j < N[1]; j++) for (int k = 0; k < N[2]; k++) for (int l = 0; l < N[3]; l++) sym_near(X(k * N[1] + j, l * N[0] + i), T(j * N[0] + i, l * N[2] + k), 0, "permuted element");
    MatD B = utils::exchange_tei<double>(X, N[1], N[2], N[0], N[3]);
    (void)B;
    auto rej = [&](size_t a, size_t b, size_t c, size_t d) { try { utils::exchange_tei<double>(T, a, b, c, d); } catch (std::logic_error &) { return true; } return false; };
    sym_assert(rej(N[0] + 1, N[1], N[2], N[3]) && rej(N[0], N[1], N[2], N[3] + 1), "wrong sizes rejected");
  } else if (what == "jk") {
    int kind = cfg("kernel", 0);  // 0 Coulomb, 1 screened, 2 range-separated
    if (kind == 1) stubs();
    if (kind == 2) { mu = sym_real("mu", 0.5, 1.5, 0.9); ph0 = sym_real("p0", 0.5, 2, 1.2); ph1 = sym_real("p1", -1, 1, 0.3); }
    const Kern &k = kind == 0 ? coul : kind == 1 ? yuk : erf_;
    int nb = rb.Nbf();
    MatD P(nb, nb); for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++) P(i, j) = j > i && cfg("psym", 0) ? 0.0 : sym_real(S("P%d_%d", i, j), -1, 1, 0.3 + 0.1 * i - 0.07 * j);
    if (cfg("psym", 0)) for (int i = 0; i < nb; i++) for (int j = i + 1; j < nb; j++) P(i, j) = P(j, i);
    MatD J = MatD::Zero(nb, nb), K = J;
    for (int e = 0; e < nel; e++) for (int g = 0; g < nel; g++) {
      MatD R = ref(fe, e, g, k); size_t a0, a1, c0, c1; fe.get_idx(e, a0, a1); fe.get_idx(g, c0, c1); int ne = a1 - a0 + 1, ng = c1 - c0 + 1;
      for (int a = 0; a < ne; a++) for (int b = 0; b < ne; b++) for (int c = 0; c < ng; c++) for (int d = 0; d < ng; d++) { double v = R(b * ne + a, d * ng + c); J(a0 + a, a0 + b) += v * P(c0 + c, c0 + d); K(a0 + a, c0 + c) += v * P(a0 + b, c0 + d); }
    }
    using namespace atomic::basis;
    int NL = L + 1; size_t Nel = nel;
    if (kind == 2) {
      std::vector<MatD> kt; compute_erfc_ktei<double>(rb, NL, mu, kt);
      sym_assert(kt.size() == NL * Nel * Nel, "cache size");
      same(assemble_K_FE_one_multipole_cached_pairwise<double>(rb, [&](size_t i, size_t j) -> const MatD & { return kt[L * Nel * Nel + i * Nel + j]; }, P), K, tol * 10, "range-separated exchange");
      return;
    }
    bool y = kind == 1;
    if (!y) { same(assemble_J_FE_one_multipole<double>(rb, L, P), J, tol * 10, "Coulomb matrix"); same(assemble_K_FE_one_multipole<double>(rb, L, P), K, tol * 10, "exchange matrix"); }
    else { same(assemble_J_FE_one_multipole_yukawa<double>(rb, L, lam, P), J, tol * 10, "screened Coulomb matrix"); same(assemble_K_FE_one_multipole_yukawa<double>(rb, L, lam, P), K, tol * 10, "screened exchange matrix"); }
    std::vector<MatD> ds, dbg, te, kt; compute_disjoint_radial_integrals<double>(rb, NL, ds, dbg, y, lam); compute_in_element_tei<double>(rb, NL, te, y, lam); compute_in_element_ktei_from_tei<double>(rb, NL, te, kt);
    auto rs = [&](size_t i) -> const MatD & { return ds[L * Nel + i]; }; auto rg = [&](size_t i) -> const MatD & { return dbg[L * Nel + i]; };
    auto tw = [&](size_t i) -> const MatD & { return te[L * Nel * Nel + i * Nel + i]; }; auto kk = [&](size_t i) -> const MatD & { return kt[L * Nel * Nel + i * Nel + i]; };
    same(assemble_J_FE_one_multipole_cached<double>(rb, rs, rg, tw, P), J, tol * 10, "Coulomb matrix from stored integrals"); same(assemble_K_FE_one_multipole_cached<double>(rb, rs, rg, kk, P), K, tol * 10, "exchange matrix from stored integrals");
    if (kind == 0 || cfg("mono", 0)) {
      std::vector<MatD> ch; for (int e = 0; e < nel; e++) ch.push_back(y ? rb.yukawa_integral_cholesky(L, lam, e, 1e-10) : rb.twoe_integral_cholesky(L, e, 1e-10));
      auto cf = [&](size_t i) -> const MatD & { return ch[i]; };
      same(assemble_J_FE_one_multipole_cached_chol<double>(rb, rs, rg, cf, P), J, 1e-6, "Coulomb matrix from factored integrals"); same(assemble_K_FE_one_multipole_cached_chol<double>(rb, rs, rg, cf, P), K, 1e-6, "exchange matrix from factored integrals");
    }
  }
}
