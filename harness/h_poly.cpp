// Primitive polynomial bases: derivatives, interpolation and completeness,
// B/r evaluation, boundary dropping.  x and the element scale are symbolic.
#include "hutil.h"
#include <PolynomialBasis.h>
using namespace helfem;
typedef polynomial_basis::PolynomialBasisT<double> PB;
static int nder(int primbas) { return primbas == 5 || primbas == 101 ? 1 : primbas == 8 ? 2 : primbas == 9 ? 3 : 0; }
// p(t)=t^q and derivatives at x
static double mono_d(double x, int q, int k) { if (k > q) return 0; double c = 1; for (int i = 0; i < k; i++) c *= q - i; return c * ipow(x, q - k); }

void sym_main() {
  int primbas = cfg("primbas", 4), nn = cfg("nnodes", 4);
  std::string what = cfgs("what", "deriv");
  std::unique_ptr<PB> b(cfg("tfactory", 0) ? polynomial_basis::get_basis_T<double>(primbas, nn) : polynomial_basis::get_basis(primbas, nn));
  if (cfg("copy", 0)) b.reset(b->copy());
  int nd = nder(primbas), np = b->get_nprim(), deg = (nd + 1) * nn - 1;
  if (what == "deriv") {
    double x = sym_real("x", -1, 1, 0.3), e = sym_real("e", 0.5, 2, 1.25);
    int n0 = cfg("n0", 0), n1 = cfg("n1", 2);
    std::vector<double> gx, gw;
    ref_gauss(deg / 2 + 1, gx, gw);
    MatD lo = b->eval_dnf(vec1(-1), n0, e), at = b->eval_dnf(vec1(x), n0, e);
    sym_assert(at.cols() == b->get_nbf() && at.rows() == 1, "shape of the result");
    double tol = 1e-9;
    for (int n = n0; n < n1; n++) {
      MatD lon = b->eval_dnf(vec1(-1), n + 1, e), atn = b->eval_dnf(vec1(x), n + 1, e);
      VecD xs((int)gx.size());
      for (size_t k = 0; k < gx.size(); k++) xs(k) = -1 + (x + 1) * 0.5 * (1 + gx[k]);
      MatD d = b->eval_dnf(xs, n + 1, e);
      tol *= nn * nn * (nd + 1) * (nd + 1);
      for (int i = 0; i < at.cols(); i++) {
        double s = 0;
        for (size_t k = 0; k < gx.size(); k++) s += gw[k] * d(k, i);
        sym_near(at(0, i) - lo(0, i), s * (x + 1) * 0.5 * e, tol, S("derivative %d of function %d integrates back", n + 1, i));
      }
      at = atn; lo = lon;
    }
  } else if (what == "interp") {
    // sum_i p^(k)(x_i) B_{ik}(x) = p(x) for all p of degree <= deg; and nodal values
    double x = sym_real("x", -1, 1, 0.3), e = sym_real("e", 0.5, 2, 1.25);
    VecD nodes = b->get_nodes();
    if (primbas != 3) {
      sym_assert(nodes.size() == nn && b->get_nnodes() == nn, "node count");
      sym_assert(np == nn * (nd + 1) && b->get_nbf() == np && b->get_noverlap() == nd + 1, "function count");
      for (int i = 1; i < nodes.size(); i++) sym_assert(nodes(i) > nodes(i - 1), "nodes ascending");
      MatD f = b->eval_dnf(vec1(x), 0, e);
      for (int q = 0; q <= deg; q++) {
        double s = 0;
        for (int i = 0; i < nn; i++) for (int k = 0; k <= nd; k++) s += mono_d(nodes(i), q, k) / ipow(e, k) * f(0, i * (nd + 1) + k);
        sym_near(s, ipow(x, q), 1e-9, S("polynomial t^%d is reproduced", q));
      }
      for (int k = 0; k <= nd; k++) {
        MatD g = b->eval_dnf(nodes, k, e);
        for (int i = 0; i < nn; i++) for (int j = 0; j < np; j++) sym_near(g(i, j), j == i * (nd + 1) + k ? 1.0 : 0.0, 1e-9, S("nodal values order %d node %d fn %d", k, i, j));
      }
    } else {
      // spectral elements: first/last interpolate the ends, the rest vanish there; span = polynomials
      sym_assert(np == nn && b->get_nbf() == nn && b->get_noverlap() == 1, "function count");
      VecD ends(2); ends << -1, 1;
      MatD g = b->eval_dnf(ends, 0, e);
      for (int j = 0; j < nn; j++) { sym_near(g(0, j), j == 0, 1e-12, "left end"); sym_near(g(1, j), j == nn - 1, 1e-12, "right end"); }
      MatD f = b->eval_dnf(vec1(x), 0, e);
      sym_near(f(0, 0), (1 - x) / 2, 1e-12, "first"); sym_near(f(0, nn - 1), (1 + x) / 2, 1e-12, "last");
      // interior function j is (P_{j+1}-P_{j-1})/sqrt(4j+2)
      std::vector<double> P(nn + 1); P[0] = 1; P[1] = x;
      for (int l = 1; l < nn; l++) P[l + 1] = ((2 * l + 1) * x * P[l] - l * P[l - 1]) / (l + 1);
      for (int j = 1; j < nn - 1; j++) sym_near(f(0, j), (P[j + 1] - P[j - 1]) / std::sqrt(4.0 * j + 2), 1e-10, S("interior shape %d", j));
    }
  } else if (what == "overr") {
    double x = sym_real("x", -1, 1, 0.3), e = sym_real("e", 0.5, 2, 1.25);
    b->drop_first(true, cfg("deriv", 0));
    if (cfg("last", 0)) b->drop_last(true, cfg("lastderiv", 0));
    std::vector<double> gx, gw;
    ref_gauss(deg / 2 + 1, gx, gw);
    MatD B = b->eval_dnf(vec1(x), 0, e), R = b->eval_over_r(vec1(x), 0, e), R0 = b->eval_over_r(vec1(-1), 0, e), B1 = b->eval_dnf(vec1(-1), 1, e);
    sym_assert(R.cols() == B.cols() && R.cols() == b->get_nbf(), "one column per surviving function");
    for (int i = 0; i < B.cols(); i++) {
      sym_near(R(0, i) * e * (x + 1), B(0, i), 1e-9, S("r * (B/r) = B, fn %d", i));
      sym_near(R0(0, i), B1(0, i), 1e-8, S("limit at the origin, fn %d", i));
    }
    double tol = 1e-8;
    for (int n = 0; n < cfg("nmax", 2); n++) {
      VecD xs((int)gx.size());
      for (size_t k = 0; k < gx.size(); k++) xs(k) = -1 + (x + 1) * 0.5 * (1 + gx[k]);
      MatD d = b->eval_over_r(xs, n + 1, e), at = b->eval_over_r(vec1(x), n, e), lo = b->eval_over_r(vec1(-1), n, e);
      tol *= nn * nn * (nd + 1);
      for (int i = 0; i < at.cols(); i++) {
        double s = 0;
        for (size_t k = 0; k < gx.size(); k++) s += gw[k] * d(k, i);
        sym_near(at(0, i) - lo(0, i), s * (x + 1) * 0.5 * e, tol, S("derivative %d of B/r, fn %d", n + 1, i));
      }
    }
  } else if (what == "drop") {
    // dropping removes exactly the documented functions, keeps the order of the rest
    double x = sym_real("x", -1, 1, 0.3), e = sym_real("e", 0.5, 2, 1.25);
    bool f1 = cfg("f1", 0), d1 = cfg("d1", 0), f2 = cfg("f2", 0), d2 = cfg("d2", 0);
    std::unique_ptr<PB> c(b->copy());
    c->drop_first(f1, d1); c->drop_last(f2, d2);
    std::vector<int> want;
    for (int i = 0; i < np; i++) {
      int node = i / (nd + 1), k = i % (nd + 1);
      if (node == 0 && ((k == 0 && f1) || (k > 0 && d1))) continue;
      if (node == nn - 1 && ((k == 0 && f2) || (k > 0 && d2))) continue;
      want.push_back(i);
    }
    MatD f = b->eval_dnf(vec1(x), 0, e), g = c->eval_dnf(vec1(x), 0, e);
    sym_assert(c->get_nbf() == (int)want.size() && g.cols() == (int)want.size(), "number of kept functions");
    for (size_t i = 0; i < want.size() && (int)i < g.cols(); i++) sym_near(g(0, i), f(0, want[i]), 1e-12, S("kept function %d", i));
    sym_assert(b->get_nbf() == np, "copy is independent");
    VecD l = vec1(-1), r = vec1(1);
    MatD gl = c->eval_dnf(l, 0, e), gr = c->eval_dnf(r, 0, e);
    for (int i = 0; i < gl.cols(); i++) {
      if (f1) sym_near(gl(0, i), 0, 1e-10, "value zero at the left end");
      if (f2) sym_near(gr(0, i), 0, 1e-10, "value zero at the right end");
    }
    for (int k = 1; k <= nd; k++) {
      MatD hl = c->eval_dnf(l, k, e), hr = c->eval_dnf(r, k, e);
      for (int i = 0; i < hl.cols(); i++) {
        if (d1 && f1) sym_near(hl(0, i), 0, 1e-8, "derivatives zero at the left end");
        if (d2 && f2) sym_near(hr(0, i), 0, 1e-8, "derivatives zero at the right end");
      }
    }
  } else if (what == "symnodes") {
    // Lagrange basis with a symbolic interior node
    double x = sym_real("x", -1, 1, 0.3), t = sym_real("t", -0.9, 0.9, 0.1), e = sym_real("e", 0.5, 2, 1.25);
    VecD n(3); n << t, 1, -1;  // unsorted on purpose
    polynomial_basis::LIPBasisT<double> L(n);
    MatD f = L.eval_dnf(vec1(x), 0, e), g = L.eval_dnf(vec1(x), 1, e), h = L.eval_dnf(vec1(x), 2, e);
    double nd3[3] = {-1, t, 1};
    for (int q = 0; q < 3; q++) {
      double s0 = 0, s1 = 0, s2 = 0;
      for (int i = 0; i < 3; i++) { s0 += ipow(nd3[i], q) * f(0, i); s1 += ipow(nd3[i], q) * g(0, i); s2 += ipow(nd3[i], q) * h(0, i); }
      sym_near(s0, ipow(x, q), 1e-8, S("t^%d", q)); sym_near(s1 * e, mono_d(x, q, 1), 1e-8, S("d t^%d", q)); sym_near(s2 * e * e, mono_d(x, q, 2), 1e-8, S("d2 t^%d", q));
    }
  }
}
