// Finite-element matrix elements and one-electron radial integrals.
// geo=0: every element length symbolic; geo=1: boundaries are s*beta_i with a
// symbolic overall scale s, so that rational integrands become monomials in s.
#include "hutil.h"
#include <RadialBasis.h>
#include <lobatto.h>
#include <chebyshev.h>
#include <RadialPotential.h>
using namespace helfem;
typedef polynomial_basis::FiniteElementBasisT<double> FE;
typedef atomic::basis::FEMRadialBasisT<double> RB;
typedef RB::BasisKind K;
typedef std::function<double(double)> Fn;
static const double BETA[4][6] = {{0, 0.4, 1.1, 2.3, 4, 7}, {0, 1, 2, 3, 4, 5}, {0, 0.9, 1.3, 3, 3.6, 6}, {0, 2, 2.5, 4, 7, 8}};
static std::shared_ptr<const polynomial_basis::PolynomialBasisT<double>> poly(int pb, int nn) { return std::shared_ptr<const polynomial_basis::PolynomialBasisT<double>>(polynomial_basis::get_basis(pb, nn)); }
static double sc = 1;
static VecD geometry(int nel, const char *tag = "") {
  VecD b(nel + 1);
  if (cfg("geo", 1) == 0) { b(0) = 0; for (int i = 0; i < nel; i++) b(i + 1) = b(i) + sym_real(S((std::string("h") + tag + "%d").c_str(), i), 0.5, 2, 0.6 + 0.35 * i); }
  else { const double *B = BETA[cfg("beta", 0)]; for (int i = 0; i <= nel; i++) b(i) = sc * B[i]; }
  return b;
}
static std::vector<double> gx, gw;
// values of kind k of the functions in element iel at reference point x
static VecD kind(const FE &fe, K k, double x, int iel) {
  VecD X = vec1(x);
  double r = fe.element_begin(iel) + 0.5 * (x + 1) * (fe.element_end(iel) - fe.element_begin(iel));
  auto B = [&](int n) { return VecD(fe.eval_dnf(X, n, iel).row(0).transpose()); };
  switch (k) {
    case K::B0: return B(0); case K::B1: return B(1); case K::B2: return B(2);
    case K::R0: return B(0) / r;
    case K::R1: return B(1) / r - B(0) / (r * r);
    case K::R2: return B(2) / r - 2 * B(1) / (r * r) + 2 * B(0) / (r * r * r);
  }
  return X;
}
// reference integral over the part [xl,xr] of element iel
static MatD refel(const FE &fe, int iel, K bra, K ket, const Fn &w, double xl = -1, double xr = 1) {
  int n = fe.get_nprim(iel);
  MatD M = MatD::Zero(n, n);
  double J = 0.5 * (fe.element_end(iel) - fe.element_begin(iel));
  for (size_t q = 0; q < gx.size(); q++) {
    double x = 0.5 * (xl + xr) + 0.5 * (xr - xl) * gx[q], r = fe.element_begin(iel) + (x + 1) * J;
    VecD a = kind(fe, bra, x, iel), b = kind(fe, ket, x, iel);
    double c = gw[q] * J * 0.5 * (xr - xl) * (w ? w(r) : 1.0);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) M(i, j) += c * a(i) * b(j);
  }
  return M;
}
static MatD assemble(const FE &fe, const std::function<MatD(int)> &el) {
  MatD M = MatD::Zero(fe.get_nbf(), fe.get_nbf());
  for (size_t i = 0; i < fe.get_nelem(); i++) { size_t a, b; fe.get_idx(i, a, b); MatD m = el(i); for (size_t k = a; k <= b; k++) for (size_t l = a; l <= b; l++) M(k, l) += m(k - a, l - a); }
  return M;
}
static void same(const MatD &A, const MatD &B, double tol, const std::string &l) {
  sym_assert(A.rows() == B.rows() && A.cols() == B.cols(), l + ": shape");
  if (A.rows() != B.rows() || A.cols() != B.cols()) return;
  for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) sym_near(A(i, j), B(i, j), tol, l + S(" (%d,%d)", i, j));
}
void sym_main() {
  std::string what = cfgs("what", "one");
  int pb = cfg("primbas", 4), nn = cfg("nnodes", 4), nel = cfg("nel", 3), nq = cfg("nquad", 12);
  ref_gauss(cfg("ng", 20), gx, gw);
  if (cfg("geo", 1) == 1) sc = sym_real("s", 0.5, 2, 1.0);
  VecD bv = geometry(nel);
  bool f1 = cfg("f1", 1), d1 = cfg("d1", 0), f2 = cfg("f2", 1), d2 = cfg("d2", 0);
  FE fe(poly(pb, nn), bv, f1, d1, f2, d2);
  RB rb(fe, nq);
  double tol = cfg("tole", 9); tol = std::pow(10.0, -tol);
  if (what == "matel") {  // generic FE matrix elements, polynomial weight
    int deg = cfg("deg", 2), l = cfg("lder", 0), k = cfg("kder", 0);
    std::vector<double> c;
    for (int i = 0; i <= deg; i++) c.push_back(sym_real(S("c%d", i), -2, 2, 0.7 - 0.4 * i));
    Fn w = [&](double r) { double v = 0; for (int i = deg; i >= 0; i--) v = v * r + c[i]; return v; };
    VecD xq, wq; lobatto::lobatto_compute<double>(cfg("n", 12), xq, wq);
    K kk[3] = {K::B0, K::B1, K::B2};
    auto el = [&](int i) { return refel(fe, i, kk[l], kk[k], w); };
    MatD ref = assemble(fe, el);
    MatD A = fe.matrix_element(l, k, w, std::vector<double>(), deg), Q = fe.matrix_element(l, k, xq, wq, w);
    same(A, ref, tol, "auto-converged matrix");
    same(Q, ref, tol, "fixed-rule matrix");
    same(rb.matrix_element(kk[l], kk[k], w), ref, tol, "radial-basis matrix");
    for (int i = 0; i < nel; i++) { same(fe.matrix_element(i, l, k, w), el(i), tol, S("element %d", i)); same(fe.matrix_element(i, l, k, xq, wq, w), el(i), tol, S("fixed-rule element %d", i)); }
    if (l == k) for (int i = 0; i < A.rows(); i++) for (int j = 0; j < i; j++) sym_near(A(i, j), A(j, i), 1e-11, "symmetric");
    // identity weight
    MatD one = assemble(fe, [&](int i) { return refel(fe, i, kk[l], kk[k], Fn()); });
    same(fe.matrix_element(l, k, Fn()), one, tol, "unit weight");
    // vectors
    VecD v = fe.vector_element(l, xq, wq, w), vr = VecD::Zero(fe.get_nbf());
    for (int i = 0; i < nel; i++) {
      size_t a, b; fe.get_idx(i, a, b);
      double J = 0.5 * (bv(i + 1) - bv(i));
      for (size_t q = 0; q < gx.size(); q++) { VecD f = kind(fe, kk[l], gx[q], i); for (size_t u = a; u <= b; u++) vr(u) += gw[q] * J * w(bv(i) + (gx[q] + 1) * J) * f(u - a); }
      VecD ve = fe.vector_element(i, l, xq, wq, w);
      sym_assert((size_t)ve.size() == b - a + 1, "vector size");
    }
    for (int i = 0; i < vr.size(); i++) sym_near(v(i), vr(i), tol, S("vector element %d", i));
  } else if (what == "break") {  // splitting at breakpoints; sub-ranges
    double t = sym_real("t", -0.8, 0.8, 0.25); int iel = cfg("iel", 1);
    double c0 = sym_real("c0", -2, 2, 1.0), c1 = sym_real("c1", -2, 2, -0.5);
    double r0 = bv(iel) + 0.5 * (t + 1) * (bv(iel + 1) - bv(iel));
    Fn lo = [&](double r) { return c0 * r; }, hi = [&](double r) { return c1 + r; };
    Fn w = [&](double r) { return r < r0 ? lo(r) : hi(r); };
    // a kinked weight: the code must split exactly at the breakpoint
    MatD ref = refel(fe, iel, K::B0, K::B0, lo, -1, t) + refel(fe, iel, K::B0, K::B0, hi, t, 1);
    std::vector<double> bp{r0};
    Fn wk = [&](double r) { return r < r0 - 1e-12 ? lo(r) : (r > r0 + 1e-12 ? hi(r) : lo(r)); };
    (void)wk;
    MatD A = rb.matrix_element(iel, K::B0, K::B0, lo, bp);
    same(A, refel(fe, iel, K::B0, K::B0, lo), tol, "breakpoints do not change a smooth integral");
    std::vector<double> bps{bv(iel + 1) + 1.0, r0, bv(iel) - 0.5, r0, bv(iel), bv(iel + 1)};
    same(rb.matrix_element(iel, K::B0, K::B0, hi, bps), refel(fe, iel, K::B0, K::B0, hi), tol, "outside and repeated breakpoints are ignored");
    MatD L = rb.matrix_element(iel, K::B0, K::B0, lo, -1, t), H = rb.matrix_element(iel, K::B0, K::B0, hi, t, 1);
    same(L, refel(fe, iel, K::B0, K::B0, lo, -1, t), tol, "left sub-range"); same(MatD(L + H), ref, tol, "sub-ranges add up");
  } else if (what == "one") {  // named one-electron integrals
    auto M = [&](K a, K b, Fn w, double f) { return assemble(fe, [&, a, b, w, f](int i) { return MatD(f * refel(fe, i, a, b, w)); }); };
    MatD Sm = rb.overlap(), T = rb.kinetic();
    same(Sm, M(K::B0, K::B0, Fn(), 1), tol, "overlap"); same(T, M(K::B1, K::B1, Fn(), 0.5), tol, "kinetic");
    for (int i = 0; i < nel; i++) { same(rb.overlap(i), refel(fe, i, K::B0, K::B0, Fn()), tol, "element overlap"); same(rb.kinetic(i), MatD(0.5 * refel(fe, i, K::B1, K::B1, Fn())), tol, "element kinetic"); }
    sym_assert(rb.Nbf() == fe.get_nbf() && rb.Nel() == fe.get_nelem(), "sizes");
    if (cfg("geo", 1)) {
      MatD V = rb.nuclear(), Tl = rb.kinetic_l();
      Fn ir = [](double r) { return 1 / r; }, ir2 = [](double r) { return 1 / (r * r); };
      same(V, M(K::B0, K::B0, ir, -1), tol, "nuclear attraction"); same(Tl, M(K::B0, K::B0, ir2, 0.5), tol, "centrifugal");
      for (int i = 0; i < nel; i++) { same(rb.nuclear(i), MatD(-refel(fe, i, K::B0, K::B0, ir)), tol, "element nuclear attraction"); same(rb.kinetic_l(i), MatD(0.5 * refel(fe, i, K::B0, K::B0, ir2)), tol, "element centrifugal"); }
    }
  } else if (what == "rpow") {  // moments <r^n> per element, sub-ranges
    for (int n = cfg("n0", -3); n <= cfg("n1", 4); n++) for (int i = 0; i < nel; i++) {
      if (i == 0 && n < -2) continue;  // divergent
      Fn w = [n](double r) { return n >= 0 ? ipow(r, n) : 1 / ipow(r, -n); };
      same(rb.radial_integral(n, i), refel(fe, i, K::B0, K::B0, w), tol, S("<r^%d> in element %d", n, i));
      same(rb.radial_integral(n, i, -0.3, 0.6), refel(fe, i, K::B0, K::B0, w, -0.3, 0.6), tol, S("partial <r^%d> in element %d", n, i));
    }
  } else if (what == "kinds") {  // all bra/ket representations
    K ks[6] = {K::B0, K::B1, K::B2, K::R0, K::R1, K::R2};
    double c = sym_real("c", -2, 2, 0.8);
    Fn w = [c](double r) { return c * r * r; };
    for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) {
      MatD ref = assemble(fe, [&](int i) { return refel(fe, i, ks[a], ks[b], w); });
      same(rb.matrix_element(ks[a], ks[b], w), ref, tol * 100, S("kinds %d %d", a, b));
    }
  } else if (what == "bf") {  // radial functions at points and at the stored nodes
    double x = sym_real("x", -0.95, 0.95, 0.3);
    VecD xs(2); xs << x, 0.5;
    VecD xq = rb.get_xq();
    for (int pass = 0; pass < 2; pass++) {
      if (pass) rb.fill_quadrature_cache(cfg("cdf", 1), cfg("clf", 1));
      for (int i = 0; i < nel; i++) {
        MatD F = rb.get_bf(xs, i), D = rb.get_df(xs, i), L = rb.get_lf(xs, i);
        for (int q = 0; q < 2; q++) { VecD f = kind(fe, K::R0, xs(q), i), d = kind(fe, K::R1, xs(q), i), l = kind(fe, K::R2, xs(q), i);
          for (int u = 0; u < f.size(); u++) { sym_near(F(q, u), f(u), tol, "radial function"); sym_near(D(q, u), d(u), tol, "its derivative"); sym_near(L(q, u), l(u), tol, "its second derivative"); } }
        MatD Fq = rb.get_bf(i), Dq = rb.get_df(i), Lq = rb.get_lf(i);
        same(Fq, rb.get_bf(xq, i), tol, pass ? "cached values" : "values at nodes"); same(Dq, rb.get_df(xq, i), tol, pass ? "cached derivatives" : "derivatives at nodes"); same(Lq, rb.get_lf(xq, i), tol, pass ? "cached second derivatives" : "second derivatives at nodes");
        VecD r = rb.get_r(i), w = rb.get_wrad(i), r2 = rb.get_r(xs, i);
        double J = 0.5 * (bv(i + 1) - bv(i)), sum = 0;
        for (int q = 0; q < r.size(); q++) { sym_near(r(q), bv(i) + (xq(q) + 1) * J, 1e-11, "radii at nodes"); sum += w(q); }
        sym_near(sum, 2 * J, 1e-9, "weights add up to the element length");
        for (int q = 0; q < 2; q++) { sym_near(r2(q), bv(i) + (xs(q) + 1) * J, 1e-11, "radii"); sym_near(rb.get_r(xs(q), i), r2(q), 1e-12, "radius"); }
      }
    }
  } else if (what == "orbs") {  // orbital evaluation anywhere, nuclear density
    int no = 2, nb = rb.Nbf(), i = cfg("iel", 0);
    MatD C(nb, no), P(nb, nb);
    for (int u = 0; u < nb; u++) for (int k = 0; k < no; k++) C(u, k) = sym_real(S("C%d_%d", u, k), -1, 1, 0.1 * u - 0.3 * k + 0.2);
    for (int u = 0; u < nb; u++) for (int k = 0; k <= u; k++) P(u, k) = P(k, u) = cfg("psym", 1) ? sym_real(S("P%d_%d", u, k), -1, 1, 0.05 * u * k - 0.1 * k) : 0.05 * u * k - 0.1 * k;
    if (what == "orbs" && cfg("pts", 1)) {
      double xs[4] = {-1, -0.4, 0.7, 1};
      for (double x : xs) {
        double r = bv(i) + 0.5 * (x + 1) * (bv(i + 1) - bv(i));
        if (x == -1 && i == 0) continue;
        VecD o = rb.eval_orbs(C, r);
        VecD f = kind(fe, K::R0, x, i); size_t a, b; fe.get_idx(i, a, b);
        sym_assert(o.size() == no, "one value per orbital");
        for (int k = 0; k < no; k++) { double v = 0; for (size_t u = a; u <= b; u++) v += f(u - a) * C(u, k); sym_near(o(k), v, tol, S("orbital %d in element %d", k, i)); }
      }
      VecD z = rb.eval_orbs(C, bv(nel) + 0.5);
      for (int k = 0; k < no; k++) sym_near(z(k), 0, 0, "orbital vanishes beyond the last element");
    }
    // at the nucleus: R(0) = B'(0), dR/dr(0) = B''(0)/2
    VecD r0 = rb.eval_orbs(C, 0.0), d1v = fe.eval_dnf(vec1(-1), 1, 0).row(0).transpose(), d2v = fe.eval_dnf(vec1(-1), 2, 0).row(0).transpose();
    Eigen::RowVectorXd no0 = rb.nuclear_orbital(C);
    size_t a, b; fe.get_idx(0, a, b);
    for (int k = 0; k < no; k++) { double v = 0; for (size_t u = a; u <= b; u++) v += d1v(u - a) * C(u, k); sym_near(no0(k), v, tol, "orbital at the nucleus"); sym_near(r0(k), v, tol, "orbital value at zero radius"); }
    double rho = 0, drho = 0;
    for (size_t u = a; u <= b; u++) for (size_t v = a; v <= b; v++) { rho += P(u, v) * d1v(u - a) * d1v(v - a); drho += P(u, v) * (d1v(u - a) * d2v(v - a) + d2v(u - a) * d1v(v - a)) / 2; }
    sym_near(rb.nuclear_density(P), rho, tol * 100, "density at the nucleus"); sym_near(rb.nuclear_density_gradient(P), drho, tol * 100, "density slope at the nucleus");
    bool threw = false;
    try { rb.nuclear_density(MatD::Zero(nb + 1, nb + 1)); } catch (std::logic_error &) { threw = true; }
    sym_assert(threw, "wrong-size density rejected");
  } else if (what == "cross") {  // two bases with different elements
    int nn2 = cfg("nnodes2", 3), nel2 = cfg("nel2", 2), pb2 = cfg("primbas2", 4);
    VecD b2(nel2 + 1); b2(0) = 0;
    double R = bv(nel), R2 = R * cfg("rpct", 100) / 100.0;
    for (int i = 1; i <= nel2; i++) b2(i) = R2 * std::pow((double)i / nel2, cfg("zpct", 150) / 100.0);
    FE g(poly(pb2, nn2), b2, true, false, cfg("g2", 1), false);
    RB rg(g, cfg("nquad2", 9));
    // reference: integrate over the union of both sets of boundaries
    std::vector<double> cut;
    for (int i = 0; i <= nel; i++) cut.push_back(bv(i));
    for (int i = 0; i <= nel2; i++) cut.push_back(b2(i));
    std::sort(cut.begin(), cut.end());
    auto gv = [&](const FE &e, const VecD &b, double r, double mid, int n, int N) { VecD v = VecD::Zero(e.get_nbf()); int k = -1; for (int i = 0; i < N; i++) if (mid > b(i) && mid < b(i + 1)) k = i; if (k < 0) return v; size_t a, z; e.get_idx(k, a, z); double x = 2 * (r - b(k)) / (b(k + 1) - b(k)) - 1; MatD m = e.eval_dnf(vec1(x), n, k); for (size_t u = a; u <= z; u++) v(u) = m(0, u - a); return v; };
    auto ref = [&](int l, int k, Fn w) {
      MatD M = MatD::Zero(fe.get_nbf(), g.get_nbf());
      for (size_t c = 0; c + 1 < cut.size(); c++) { double A = cut[c], B = cut[c + 1]; if (!(B - A > 1e-9)) continue;
        for (size_t q = 0; q < gx.size(); q++) { double r = 0.5 * (A + B) + 0.5 * (B - A) * gx[q]; VecD u = gv(fe, bv, r, 0.5 * (A + B), l, nel), v = gv(g, b2, r, 0.5 * (A + B), k, nel2); double f = gw[q] * 0.5 * (B - A) * w(r); for (int i = 0; i < M.rows(); i++) for (int j = 0; j < M.cols(); j++) M(i, j) += f * u(i) * v(j); } }
      return M;
    };
    auto p = [](int n) { return Fn([n](double r) { return n >= 0 ? ipow(r, n) : 1 / ipow(r, -n); }); };
    same(rb.overlap(rg), ref(0, 0, p(0)), tol, "overlap between two bases");
    for (int n = cfg("n0", -1); n <= cfg("n1", 2); n++) {
      same(rb.radial_integral(rg, n), ref(0, 0, p(n)), tol, S("<r^%d> between two bases", n));
      if (n >= 0) { same(rb.radial_integral(rg, n, true, false), ref(1, 0, p(n)), tol, "derivative on the left"); same(rb.radial_integral(rg, n, false, true), ref(0, 1, p(n)), tol, "derivative on the right"); same(rb.radial_integral(rg, n, true, true), ref(1, 1, p(n)), tol, "derivatives on both"); }
    }
    double c = sym_real("c", -2, 2, 0.8);
    Fn w = [c](double r) { return c * r + 1; };
    same(rb.matrix_element(rg, K::B0, K::B1, w), ref(0, 1, w), tol, "general weight between two bases");
    bool threw = false;
    try { rb.matrix_element(rg, K::R0, K::B0, w); } catch (std::logic_error &) { threw = true; }
    sym_assert(threw, "over-r kinds rejected between bases");
  } else if (what == "conf") {
    int iconf = cfg("iconf", 1), N = cfg("N", 2), iel = cfg("iel", 1);
    double r0 = sc * 1.3 * (cfg("neg", 0) ? -1 : 1), V = sym_real("V", 0.5, 2, 1.2), sh = 0, xs = -1;
    bool in = cfg("shiftin", 0);
    if (in == 1) { xs = 0.25; sh = bv(iel) + 0.5 * (xs + 1) * (bv(iel + 1) - bv(iel)); }
    if (cfg("shiftout", 0)) { sh = bv(iel + 1); xs = 1; }
    double rc = bv(nel), a = std::fabs(r0);
    Fn w;
    if (iconf == 1) w = [&](double r) { double u = (r - sh) / a, v = N >= 0 ? ipow(u, N) : 1 / (ipow(r, -N) * ipow(a, -N)); return r0 < 0 ? -v : v; };
    if (iconf == 2) w = [&](double r) { double u = (r - sh) / a, v = std::exp(u), t = 1; for (int k = 0; k < N; k++) { v -= t; t *= u / (k + 1); } return v * fact(N); };
    if (iconf == 3) w = [&](double r) { return V; };
    if (iconf == 4) w = [&](double r) { return V * std::exp(-(rc - sh) / (r - sh)) / ipow(rc - r, N); };
    MatD A = rb.confinement_potential(iel, N, r0, iconf, V, sh);
    MatD ref = xs < 1 ? refel(fe, iel, K::B0, K::B0, w, xs, 1) : MatD(MatD::Zero(fe.get_nprim(iel), fe.get_nprim(iel)));
    same(A, ref, tol, "confinement potential");
    auto rejects = [&](int n, double r, int ic, double v, double s) { try { rb.confinement_potential(iel, n, r, ic, v, s); } catch (std::logic_error &) { return true; } return false; };
    sym_assert(rejects(-1, r0, 1, V, bv(1)), "divergent shifted polynomial rejected");
    sym_assert(rejects(0, r0, 2, V, 0) && rejects(-1, r0, 2, V, 0), "exponential needs N >= 1");
    sym_assert(rejects(1, r0, 3, -V, 0), "attractive barrier rejected");
    sym_assert(rejects(0, r0, 4, V, 0) && rejects(2, r0, 4, -V, 0), "invalid Junquera potential rejected");
    sym_assert(rejects(1, r0, 5, V, 0), "unknown confinement rejected");
  } else if (what == "offc") {  // off-centre nuclear attraction multipoles
    int k = cfg("k", 1);  // Rhalf = bv(k)
    double Rh = cfg("Rin", 0) ? 0.5 * (bv(k) + bv(k + 1)) : bv(k);
    for (int L = 0; L <= cfg("Lmax", 3); L++) for (int i = 0; i < nel; i++) {
      bool threw = false; MatD A;
      try { A = rb.nuclear_offcenter(i, Rh, L); } catch (std::logic_error &) { threw = true; }
      sym_assert(threw == (cfg("Rin", 0) && i == k), "only an element containing the nucleus is rejected");
      if (threw) continue;
      bool outside = bv(i) >= Rh;
      Fn w = [&](double r) { return outside ? ipow(Rh, L) / ipow(r, L + 1) : ipow(r, L) / ipow(Rh, L + 1); };
      same(A, MatD(-std::sqrt(4 * M_PI / (2 * L + 1)) * refel(fe, i, K::B0, K::B0, w)), tol, S("multipole %d in element %d", L, i));
    }
  }
}
