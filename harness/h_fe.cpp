// Finite-element basis: indexing, continuity, boundary conditions, coordinate
// maps, element lookup, refinement.  Element boundaries are symbolic.
#include "hutil.h"
#include <FiniteElementBasis.h>
using namespace helfem;
typedef polynomial_basis::FiniteElementBasisT<double> FE;
static int nder(int pb) { return pb == 5 ? 1 : pb == 8 ? 2 : pb == 9 ? 3 : 0; }
static std::shared_ptr<const polynomial_basis::PolynomialBasisT<double>> poly(int pb, int nn) { return std::shared_ptr<const polynomial_basis::PolynomialBasisT<double>>(polynomial_basis::get_basis(pb, nn)); }
// value of every global function at reference point x of element iel (0 outside its support)
static VecD globalv(const FE &fe, double x, int n, size_t iel) {
  VecD v = VecD::Zero(fe.get_nbf());
  MatD d = fe.eval_dnf(vec1(x), n, iel);
  size_t a, b; fe.get_idx(iel, a, b);
  sym_assert(b < fe.get_nbf() && a <= b && (size_t)d.cols() == b - a + 1 && fe.get_nprim(iel) == b - a + 1, "index range fits");
  for (size_t i = a; i <= b && i < (size_t)v.size(); i++) v(i) = d(0, i - a);
  return v;
}
void sym_main() {
  std::string what = cfgs("what", "index");
  int pb = cfg("primbas", 4), nn = cfg("nnodes", 3), nel = cfg("nel", 3), nd = nder(pb);
  bool f1 = cfg("f1", 0), d1 = cfg("d1", 0), f2 = cfg("f2", 0), d2 = cfg("d2", 0);
  VecD bv(nel + 1);
  bv(0) = cfg("zero", 0) ? 0.0 : sym_real("b0", -1, 1, 0.25);
  for (int i = 0; i < nel; i++) bv(i + 1) = bv(i) + sym_real(S("h%d", i), 0.5, 2, 0.6 + 0.35 * i);
  FE fe(poly(pb, nn), bv, f1, d1, f2, d2);
  int nprim = (nd + 1) * nn, drop = (f1 ? 1 : 0) + (d1 ? nd : 0) + (f2 ? 1 : 0) + (d2 ? nd : 0);
  auto gen = [&](double x, size_t iel) { return bv(iel) + 0.5 * (x + 1) * (bv(iel + 1) - bv(iel)); };
  if (what == "index") {
    sym_assert((int)fe.get_nelem() == nel, "number of elements");
    sym_assert((int)fe.get_nbf() == nel * nprim - (nel - 1) * (nd + 1) - drop, "number of functions");
    sym_assert((int)fe.get_max_nprim() == nprim && fe.get_poly_id() == pb && fe.get_poly_nnodes() == nn, "polynomial descriptors");
    size_t prev = 0, a, b;
    for (int i = 0; i < nel; i++) {
      fe.get_idx(i, a, b);
      sym_assert(a == (i ? prev - nd : 0), "first function of an element is shared with its left neighbour");
      prev = b;
    }
    sym_assert(b + 1 == fe.get_nbf(), "last function");
    // continuity of every function and of nd derivatives across interior boundaries
    for (int i = 0; i + 1 < nel; i++) for (int n = 0; n <= nd; n++) {
      VecD l = globalv(fe, 1, n, i), r = globalv(fe, -1, n, i + 1);
      for (int k = 0; k < l.size(); k++) sym_near(l(k), r(k), 1e-7, S("continuity of derivative %d of function %d at boundary %d", n, k, i));
      sym_near(l.cwiseAbs().maxCoeff(), 1, 1e-7, "a shared function exists");
    }
    // boundary conditions
    VecD l = globalv(fe, -1, 0, 0), r = globalv(fe, 1, 0, nel - 1);
    double ls = 0, rs = 0;
    for (int k = 0; k < l.size(); k++) { ls += l(k); rs += r(k); }
    sym_near(ls, f1 ? 0 : 1, 1e-8, "value at the left end"); sym_near(rs, f2 ? 0 : 1, 1e-8, "value at the right end");
    for (int n = 1; n <= nd; n++) {
      VecD l = globalv(fe, -1, n, 0), r = globalv(fe, 1, n, nel - 1);
      double ls = 0, rs = 0;
      for (int k = 0; k < l.size(); k++) { ls += l(k); rs += r(k); }
      sym_near(ls, d1 ? 0 : 1, 1e-6, "derivative at the left end"); sym_near(rs, d2 ? 0 : 1, 1e-6, "derivative at the right end");
    }
    // global tabulation agrees with the element-wise one
    double x = sym_real("x", -1, 1, 0.3);
    VecD xs(2); xs << x, -0.5;
    for (int n = 0; n < 2; n++) {
      MatD G = fe.eval_dnf(xs, n);
      sym_assert(G.rows() == 2 * nel && (size_t)G.cols() == fe.get_nbf(), "table shape");
      for (int i = 0; i < nel; i++) for (int q = 0; q < 2; q++) { VecD v = globalv(fe, xs(q), n, i); for (int k = 0; k < v.size(); k++) sym_near(G(2 * i + q, k), v(k), 1e-10, "global table"); }
    }
  } else if (what == "coord") {
    double x = sym_real("x", -0.999, 0.999, 0.3);
    VecD xs(2), ws(2); xs << x, -0.5; ws << x, 0.75;
    VecD all = fe.eval_coord(xs), wall = fe.eval_weights(ws), gb = fe.get_bval();
    for (int i = 0; i <= nel; i++) sym_near(gb(i), bv(i), 0, "boundaries kept");
    for (int i = 0; i < nel; i++) {
      double h = bv(i + 1) - bv(i);
      sym_near(fe.element_begin(i), bv(i), 0, "begin"); sym_near(fe.element_end(i), bv(i + 1), 0, "end");
      sym_near(fe.element_midpoint(i), 0.5 * (bv(i) + bv(i + 1)), 1e-12, "mid"); sym_near(fe.element_length(i), h, 1e-12, "length");
      sym_near(fe.scaling_factor(i), h / 2, 1e-12, "scale");
      sym_near(fe.eval_coord(x, i), gen(x, i), 1e-12, "coordinate"); 
      VecD c = fe.eval_coord(xs, i);
      for (int q = 0; q < 2; q++) { sym_near(c(q), gen(xs(q), i), 1e-12, "coordinates"); sym_near(all(2 * i + q), c(q), 1e-12, "all coordinates"); sym_near(wall(2 * i + q), ws(q) * h / 2, 1e-12, "weights"); }
      sym_near(fe.eval_coord(-1.0, i), bv(i), 1e-12, "left end"); sym_near(fe.eval_coord(1.0, i), bv(i + 1), 1e-12, "right end");
      VecD back = fe.eval_prim(c, i);
      for (int q = 0; q < 2; q++) sym_near(back(q), xs(q), 1e-11, "inverse map");
      sym_near(fe.eval_prim(vec1(bv(i)), i)(0), -1, 1e-11, "inverse map at the left end"); sym_near(fe.eval_prim(vec1(bv(i + 1)), i)(0), 1, 1e-11, "inverse map at the right end");
      bool threw = false;
      try { fe.eval_prim(vec1(bv(i + 1) + 0.01), i); } catch (std::logic_error &) { threw = true; }
      sym_assert(threw, "coordinates outside the element are rejected");
    }
    bool threw = false;
    try { fe.element_begin(nel); } catch (std::logic_error &) { threw = true; }
    sym_assert(threw, "element index checked");
  } else if (what == "find") {
    double r = sym_real("r", -2, 12, 0.9);
    size_t i = fe.find_element(r);
    sym_assert(i < (size_t)nel, "element index in range");
    if (r >= bv(0) && r <= bv(nel)) { sym_assert(bv(i) <= r && r <= bv(i + 1), "element contains the point"); }
    else if (r < bv(0)) sym_assert(i == 0, "points below go to the first element");
    else sym_assert((int)i == nel - 1, "points above go to the last element");
  } else if (what == "refine") {
    double t = sym_real("t", 0.05, 0.95, 0.4); int k = cfg("k", 1);
    double r = bv(k) + t * (bv(k + 1) - bv(k)), x = sym_real("x", -1, 1, 0.3);
    FE f2e(fe);
    f2e.add_boundary(r);
    sym_assert((int)f2e.get_nelem() == nel + 1 && f2e.get_nbf() == fe.get_nbf() + nprim - nd - 1, "one more element");
    VecD gb = f2e.get_bval();
    for (int i = 0; i <= nel + 1; i++) sym_near(gb(i), i <= k ? bv(i) : i == k + 1 ? r : bv(i - 1), 1e-14, "boundaries sorted");
    size_t a, b, a2, b2, pb2 = 0;
    for (int i = 0; i <= nel; i++) { f2e.get_idx(i, a, b); sym_assert(a == (i ? pb2 - nd : 0), "indices contiguous"); pb2 = b; }
    sym_assert(pb2 + 1 == f2e.get_nbf(), "last index");
    for (int i = 0; i < nel; i++) if (i != k) {
      int j = i < k ? i : i + 1;
      MatD u = fe.eval_dnf(vec1(x), 0, i), v = f2e.eval_dnf(vec1(x), 0, j);
      sym_assert(u.cols() == v.cols(), "same functions");
      for (int c = 0; c < u.cols() && c < v.cols(); c++) sym_near(u(0, c), v(0, c), 1e-10, "untouched element keeps its functions");
    }
    FE f3(f2e); f3.add_boundary(r);
    sym_assert(f3.get_nelem() == f2e.get_nelem() && f3.get_nbf() == f2e.get_nbf(), "adding an existing boundary changes nothing");
    sym_assert((int)fe.get_nelem() == nel, "copies independent");
  }
}
