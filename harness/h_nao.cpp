// Contracted (numerical-orbital, Slater, Gaussian) radial bases on top of the element basis.
#include "hutil.h"
#include "h_bess.h"
#include <RadialBasis.h>
#include <CoulombExchangeFE.h>
#include <NAORadialBasis.h>
#include <STO.h>
#include <GTO.h>
#include "quadrature.h"
using namespace helfem;
typedef polynomial_basis::FiniteElementBasisT<double> FE;
typedef atomic::basis::FEMRadialBasisT<double> RB;
typedef atomic::basis::NAORadialBasis NAO;
#include "h_aref.h"
static const double BETA[] = {0, 0.4, 1.1, 2.3, 4, 7};
template <class F> static bool throws(F f) { try { f(); } catch (std::exception &) { return true; } return false; }
static MatD symC(const char *nm, int r, int c) { MatD C(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) C(i, j) = sym_real(S((std::string(nm) + "%d_%d").c_str(), i, j), -1, 1, 0.2 + 0.3 * ((i + 2 * j) % 4) - 0.1 * i); return C; }
static void t_nao() {
  int pb = cfg("primbas", 4), nn = cfg("nnodes", 3), nel = cfg("nel", 2), nq = cfg("nquad", 12);
  double s = cfg("geo", 1) ? sym_real("s", 0.7, 1.5, 1.0) : 1.0; VecD bv(nel + 1); for (int i = 0; i <= nel; i++) bv(i) = s * BETA[i];
  std::shared_ptr<const polynomial_basis::PolynomialBasisT<double>> p(polynomial_basis::get_basis(pb, nn));
  FE fe(p, bv, true, false, cfg("f2", 1), false); int n = fe.get_nbf(), na = cfg("na", 2), nb = cfg("nb", 1);
  auto rb = std::make_shared<const RB>(fe, nq);
  MatD Ca = symC("a", n, na), Cb = symC("b", n, nb); NAO A(rb, Ca), B(rb, Cb);
  double tol = std::pow(10.0, -cfg("tole", 7)); auto one = [](double, int) { return 1.0; };
  auto T = [&](const MatD &M) { return MatD(Ca.transpose() * M * Ca); };
  sym_assert((int)A.Nbf() == na && (int)B.Nbf() == nb && &A.underlying() == rb.get(), "sizes");
  if (cfg("one", 1)) {
    same(A.overlap(), T(radint(fe, 0, one)), tol, "overlap"); same(A.kinetic(), T(0.5 * radint(fe, 1, one)), tol, "kinetic energy");
    same(A.kinetic_l(), T(0.5 * radint(fe, 0, [](double r, int) { return 1 / (r * r); })), tol, "angular kinetic energy"); same(A.nuclear(), T(-radint(fe, 0, [](double r, int) { return 1 / r; })), tol, "nuclear attraction");
    MatD Co = symC("o", na, 2); 
    for (int e = 0; e < nel; e++) { double x = 0.3, r = radc(fe, x, e); VecD v = val(fe, x, e), full = VecD::Zero(n); size_t a, b; fe.get_idx(e, a, b); for (size_t k = a; k <= b; k++) full(k) = v(k - a);
      VecD o = A.eval_orbs(Co, r), ref = (Ca * Co).transpose() * full / r; sym_assert(o.size() == 2, "a value per orbital"); if (o.size() == 2) for (int k = 0; k < 2; k++) sym_near(o(k), ref(k), 1e-8, "orbital value"); }
    sym_assert(throws([&] { A.eval_orbs(MatD::Zero(na + 1, 1), 0.2); }), "orbital coefficients of wrong length rejected");
  }
  if (cfg("two", 0)) {
    int k = cfg("k", 1); MatD D(nb, nb); for (int i = 0; i < nb; i++) for (int j = 0; j <= i; j++) D(i, j) = D(j, i) = sym_real(S("D%d_%d", i, j), -1, 1, 0.4 - 0.2 * j);
    double lam = 1; bool yuk = cfg("yuk", 0); if (yuk) { lam = sym_real("lam", 0.5, 2, 1.1); il1 = 0; }
    MatD R = slater(fe, [&](double r, double q) { return yuk ? utils::bessel_il<double>(lam * r, k) * utils::bessel_kl<double>(lam * q, k) : ipow(r, k) / ipow(q, k + 1); });
    MatD P = Cb * D * Cb.transpose(), J = MatD::Zero(n, n), K = J;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int m = 0; m < n; m++) for (int l = 0; l < n; l++) { J(i, j) += R(j * n + i, l * n + m) * P(m, l); K(i, j) += R(m * n + i, l * n + j) * P(m, l); }
    double f = cfg("fac", 1);
    same(yuk ? A.coulomb_radial_yukawa(k, lam, B, D) : A.coulomb_radial(k, B, D), T(f * J), 1e-6, "Coulomb");
    same(yuk ? A.exchange_radial_yukawa(k, lam, B, D) : A.exchange_radial(k, B, D), T(f * K), 1e-6, "exchange");
    NAO O(std::make_shared<const RB>(fe, nq), Cb);
    sym_assert(throws([&] { A.coulomb_radial(k, O, D); }) && throws([&] { A.exchange_radial(k, O, D); }) && throws([&] { A.coulomb_radial_yukawa(k, 1.0, O, D); }) && throws([&] { A.exchange_radial_yukawa(k, 1.0, O, D); }), "different underlying bases rejected");
    MatD W = MatD::Zero(nb + 1, nb + 1);
    sym_assert(throws([&] { A.coulomb_radial(k, B, W); }) && throws([&] { A.exchange_radial(k, B, W); }) && throws([&] { A.coulomb_radial_yukawa(k, 1.0, B, W); }) && throws([&] { A.exchange_radial_yukawa(k, 1.0, B, W); }), "densities of wrong shape rejected");
    sym_assert(throws([&] { A.coulomb_radial_yukawa(k, 0.0, B, D); }) && throws([&] { A.exchange_radial_yukawa(k, -1.0, B, D); }), "screening must be positive");
  }
  sym_assert(throws([&] { NAO(rb, MatD::Zero(n + 1, 1)); }) && throws([&] { NAO(rb, MatD::Zero(n, 0)); }) && throws([&] { NAO(std::shared_ptr<const RB>(), MatD::Zero(n, 1)); }), "bad contractions rejected");
}
// Slater / Gaussian bases: the primitives share a symbolic scale, so the grid is (constant)/zeta
static void t_prim() {
  bool gto = cfg("gto", 0); int ne = cfg("nelem", 3), nn = cfg("nnodes", 6), nf = cfg("nf", 2); double tol = std::pow(10.0, -cfg("texp", 6)), acc = std::pow(10.0, -cfg("acc", 6));
  double z = sym_real("z", 0.3, 4, 1.1); static const double ZZ[2][4] = {{1, 1.6, 0.7, 2.3}, {1.7, 0.6, 0.9, 1.2}}; const double *ZR = ZZ[cfg("zr", 0)]; int n0 = cfg("n0", gto ? 0 : 1);
  // function f has f+1 primitives with symbolic contraction coefficients
  std::vector<std::vector<double>> c(nf); for (int f = 0; f < nf; f++) for (int i = 0; i <= f; i++) c[f].push_back(sym_real(S("c%d_%d", f, i), -1, 1, 0.7 - 0.5 * i));
  auto expo = [&](int i) { return gto ? z * z * ZR[i] : z * ZR[i]; };
  std::vector<atomic::basis::STOContracted> sb; std::vector<atomic::basis::GTOContracted> gb;
  for (int f = 0; f < nf; f++) {
    VecD cv(f + 1); for (int i = 0; i <= f; i++) cv(i) = c[f][i];
    if (gto) { atomic::basis::GTOContracted g; for (int i = 0; i <= f; i++) g.primitives.push_back({n0 + i, expo(i)}); g.contraction = cv; gb.push_back(g); }
    else { atomic::basis::STOContracted g; for (int i = 0; i <= f; i++) g.primitives.push_back({n0 + i, expo(i)}); g.contraction = cv; sb.push_back(g); }
  }
  NAO A = gto ? atomic::basis::make_nao_gto(gb, tol, ne, nn) : atomic::basis::make_nao_sto(sb, tol, ne, nn);
  const RB &rb = dynamic_cast<const RB &>(A.underlying()); const MatD &C = A.coeffs(); int N = rb.Nbf();
  sym_assert((int)A.Nbf() == nf && C.rows() == N && C.cols() == nf, "sizes"); if (C.rows() != N || C.cols() != nf) return;
  const auto &fe = rb.get_fem();
  sym_assert((int)fe.get_nelem() == ne && N == ne * (nn - 1) - 1, "grid size");
  sym_near(fe.element_begin(0), 0, 0, "starts at the nucleus");
  double rmax = fe.element_end(ne - 1);
  // every primitive has decayed to tol of its peak at the end of the grid, the slowest one exactly there
  double top = 0;
  for (int i = 0; i < nf; i++) { int pw = n0 + i + (gto ? 1 : 0); double pk = gto ? std::sqrt(pw / (2 * expo(i))) : pw / expo(i); double u = std::pow(rmax / pk, pw) * (gto ? std::exp(expo(i) * (pk * pk - rmax * rmax)) : std::exp(pw - expo(i) * rmax)); sym_le(u, tol, tol * 1e-3, "decayed at the end"); if (u > top) top = u; }
  sym_le(tol, top, tol * 1e-2, "grid not longer than needed");
  // projection: S c = <chi|u>, u normalised primitive sums
  auto prim = [&](int i, double r) { int pw = n0 + i + (gto ? 1 : 0); double a = expo(i), nrm; if (gto) nrm = std::sqrt(2 * std::pow(2 * a, pw + 0.5) / std::tgamma(pw + 0.5)); else nrm = std::sqrt(ipow(2 * a, 2 * pw + 1) / fact(2 * pw)); return nrm * ipow(r, pw) * std::exp(gto ? -a * r * r : -a * r); };
  MatD Sref = radint(fe, 0, [](double, int) { return 1.0; }); MatD b = MatD::Zero(N, nf);
  for (int e = 0; e < ne; e++) { size_t a0, a1; fe.get_idx(e, a0, a1); double J = 0.5 * (fe.element_end(e) - fe.element_begin(e)); for (size_t g = 0; g < gx.size(); g++) { VecD v = val(fe, gx[g], e); double r = radc(fe, gx[g], e); for (int i = 0; i < nf; i++) { double u = prim(i, r) * gw[g] * J; for (int f = i; f < nf; f++) for (size_t k = a0; k <= a1; k++) b(k, f) += c[f][i] * u * v(k - a0); } } }
  MatD SC = Sref * C; double sz = std::sqrt(z);
  for (int f = 0; f < nf; f++) for (int k = 0; k < N; k++) sym_near(SC(k, f) * sz, b(k, f) * sz, acc, "projection onto the element basis");
  // fine grids reproduce the exact overlaps
  if (cfg("exact", 0)) {
    MatD O = A.overlap(), Tk = A.kinetic(), V = A.nuclear();
    auto I = [&](int pw, double a) { return gto ? 0.5 * std::tgamma(0.5 * (pw + 1)) / std::pow(a, 0.5 * (pw + 1)) : fact(pw) / ipow(a, pw + 1); };
    auto nr = [&](int i) { int pw = n0 + i + (gto ? 1 : 0); return 1 / std::sqrt(I(2 * pw, 2 * expo(i))); };
    for (int f = 0; f < nf; f++) for (int g = 0; g < nf; g++) { double so = 0, vo = 0, to = 0; for (int i = 0; i <= f; i++) for (int j = 0; j <= g; j++) { int pw = 2 * n0 + i + j + (gto ? 2 : 0); double q = c[f][i] * c[g][j] * nr(i) * nr(j); so += q * I(pw, expo(i) + expo(j)); vo -= q * I(pw - 1, expo(i) + expo(j));
        int pi = n0 + i + (gto ? 1 : 0), pj = n0 + j + (gto ? 1 : 0), d = gto ? 1 : 0; double ai = gto ? 2 * expo(i) : expo(i), aj = gto ? 2 * expo(j) : expo(j), E = expo(i) + expo(j);   // u' = (p r^(p-1) - a r^(p+d)) e
        to += 0.5 * q * (pi * pj * I(pi + pj - 2, E) - pi * aj * I(pi + pj - 1 + d, E) - pj * ai * I(pi + pj - 1 + d, E) + ai * aj * I(pi + pj + 2 * d, E)); }
      sym_near(O(f, g), so, acc * 10, "overlap"); sym_near(V(f, g) / z, vo / z, acc * 30, "nuclear attraction"); sym_near(Tk(f, g) / (z * z), to / (z * z), acc * 100, "kinetic energy"); }
  }
}
static void t_bad() {
  using namespace atomic::basis; VecD o = VecD::Ones(1), o2 = VecD::Ones(2); double z = sym_real("z", -3, 3, -0.5); int n = sym_int("n", -3, 3, -1);
  sym_assert(throws([&] { make_nao_sto({}); }) && throws([&] { make_nao_gto({}); }), "empty basis rejected");
  sym_assert(throws([&] { make_nao_sto({STOContracted{{}, VecD()}}); }) && throws([&] { make_nao_sto({STOContracted{{{1, 1.0}}, o2}}); }) && throws([&] { make_nao_gto({GTOContracted{{}, VecD()}}); }) && throws([&] { make_nao_gto({GTOContracted{{{1, 1.0}}, o2}}); }), "malformed contraction rejected");
  sym_assume(z <= 0 || n < 0); sym_assert(throws([&] { make_nao_gto({GTOContracted{{{n, z}}, o}}, 1e-2, 1, 3); }), "invalid Gaussian rejected"); sym_assert(throws([&] { make_nao_sto({STOContracted{{{n, z}}, o}}, 1e-2, 1, 3); }), "invalid Slater function rejected");
}
void sym_main() {
  ref_gauss(cfg("ng", 24), gx, gw); std::string w = cfgs("what", "nao");
  if (w == "nao") t_nao(); if (w == "prim") t_prim(); if (w == "bad") t_bad();
}
