// Atoms reconstructed from the tabulated wave functions.
#include "hutil.h"
#include "h_stubs.h"
#include <atomdb.h>
#include <model_potential.h>
using namespace helfem;
namespace db = helfem::atomdb;
struct Pt { double R[3], D[3], L[3]; double r; int el; };
// radial functions B/r and derivatives at reference point x of element el (three-node elements, end functions removed)
static Pt at(const polynomial_basis::FiniteElementBasis &fe, int el, double x) {
  Pt p; p.el = el;
  for (int i = 0; i < 3; i++) p.R[i] = p.D[i] = p.L[i] = 0;
  VecD X = vec1(x); size_t a, b; fe.get_idx(el, a, b);
  MatD f0 = fe.eval_dnf(X, 0, el), f1 = fe.eval_dnf(X, 1, el), f2 = fe.eval_dnf(X, 2, el);
  double b0 = fe.element_begin(el), b1 = fe.element_end(el), r = p.r = b0 + 0.5 * (x + 1) * (b1 - b0);
  for (size_t k = a; k <= b; k++) { double B = f0(0, k - a), B1 = f1(0, k - a), B2 = f2(0, k - a); p.R[k] = B / r; p.D[k] = B1 / r - B / (r * r); p.L[k] = B2 / r - 2 * B1 / (r * r) + 2 * B / (r * r * r); }
  return p;
}
void sym_main() {
  std::string what = cfgs("what", "dens");
  int Z = cfg("Z", 2), el = cfg("el", 1);
  double x = cfg("xsym", 0) ? sym_real("x", -0.9, 0.9, 0.3) : cfg("xpct", 30) / 100.0;
  double s = cfg("geo", 1) ? sym_real("s", 0.5, 2, 1) : 1.0;
  for (int i = 0; i < 3; i++) db::tab::bval()[i] *= s;
  double P[3][3] = {};
  for (int l = 0; l < 4; l++) for (int k = 0; k < db::tab::norb(Z, l); k++) {
    int o = db::tab::offset(Z, l) + k;
    if (cfg("csym", 1)) { db::tab::occ()[o] = sym_real(S("n%d", o), 0.1, 2, 0.5 + 0.3 * o); for (int i = 0; i < 3; i++) db::tab::coef()[3 * o + i] = sym_real(S("C%d_%d", o, i), -1, 1, 0.4 - 0.3 * i + 0.1 * o); }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) P[i][j] += db::tab::occ()[o] * db::tab::coef()[3 * o + i] * db::tab::coef()[3 * o + j];
  }
  db::Atom A(Z);
  const polynomial_basis::FiniteElementBasis &fe = A.basis().get_fem();
  Pt p = at(fe, el, x);
  double q = 0, d1 = 0, d2 = 0, r = p.r;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { q += P[i][j] * p.R[i] * p.R[j]; d1 += 2 * P[i][j] * p.R[i] * p.D[j]; d2 += 2 * P[i][j] * (p.D[i] * p.D[j] + p.R[i] * p.L[j]); }
  double f = 4 * M_PI, Rmax = db::tab::bval()[2];
  std::vector<double> gx, gw; ref_gauss(20, gx, gw);
  auto part = [&](int e, double xa, double xb, int over) { double v = 0, h = 0.5 * (fe.element_end(e) - fe.element_begin(e)) * 0.5 * (xb - xa); for (size_t g = 0; g < gx.size(); g++) { Pt t = at(fe, e, 0.5 * (xa + xb) + 0.5 * (xb - xa) * gx[g]); double u = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) u += P[i][j] * t.R[i] * t.R[j]; v += gw[g] * h * u * (over ? t.r : t.r * t.r); } return v; };
  if (what == "dens") {
    sym_assert(A.charge() == Z && db::max_Z() == 3 && db::Nbf() == 3 && db::lmax() == 3, "table sizes");
    sym_near(A.density(r), q / f, 1e-10, "density"); sym_near(A.radial_density(r), r * r * q, 1e-10, "radial density");
    sym_near(A.density_gradient(r), d1 / f, 1e-9, "density gradient"); sym_near(A.density_laplacian(r), (d2 + 2 * d1 / r) / f, 1e-8, "density Laplacian");
    double o = Rmax + s * 0.5, n = -0.3 * s;
    for (double t : {o, n, 0.0}) { sym_near(A.density(t), 0, 0, "no density outside"); sym_near(A.radial_density(t), 0, 0, "no radial density outside"); sym_near(A.density_gradient(t), 0, 0, "no gradient outside"); sym_near(A.density_laplacian(t), 0, 0, "no Laplacian outside"); }
    helfem::Vector b = A.element_boundaries(); sym_assert(b.size() == 3, "boundaries"); for (int i = 0; i < 3; i++) sym_near(b(i), db::tab::bval()[i], 0, "boundaries");
    // derived record access
    for (int l = 0; l < 4; l++) { sym_assert(db::norb(Z, l) == db::tab::norb(Z, l), "orbital count"); helfem::Vector oc = db::occupations(Z, l); helfem::Matrix C = db::coefficients(Z, l); sym_assert(oc.size() == db::tab::norb(Z, l) && C.cols() == oc.size() && C.rows() == 3, "record shapes"); for (int k = 0; k < oc.size(); k++) { int g = db::tab::offset(Z, l) + k; sym_near(oc(k), db::tab::occ()[g], 0, "occupations"); for (int i = 0; i < 3; i++) sym_near(C(i, k), db::tab::coef()[3 * g + i], 0, "coefficients"); } }
    auto bad = [](int z, int l) { try { db::norb(z, l); } catch (std::logic_error &) { return true; } return false; };
    auto bada = [](int z) { try { db::Atom a(z); } catch (std::logic_error &) { return true; } return false; };
    sym_assert(bad(0, 0) && bad(4, 0) && bad(-1, 0) && bad(1, -1) && bad(1, 4) && bada(0) && bada(4), "missing records rejected");
  } else if (what == "charge") {
    double Q[2], M[2]; for (int e = 0; e < 2; e++) { Q[e] = part(e, -1, 1, 0); M[e] = part(e, -1, 1, 1); }
    double below = el ? Q[0] : 0, above = el ? 0 : M[1], N = Q[0] + Q[1];
    double in = below + part(el, -1, x, 0), out = above + part(el, x, 1, 1);
    sym_near(A.nelectrons(), N, 1e-8, "electron count"); sym_near(A.enclosed_charge(r), in, 1e-8, "enclosed charge"); sym_near(A.hartree_screening(r), in + r * out, 1e-8, "Hartree screening");
    sym_near(A.partial_integral(el, -0.4, 0.7, false), part(el, -0.4, 0.7, 0), 1e-8, "partial charge"); sym_near(A.partial_integral(el, -0.4, 0.7, true), part(el, -0.4, 0.7, 1), 1e-8, "partial moment");
    sym_near(A.partial_integral(el, 0.3, 0.3, false), 0, 0, "empty interval");
    double o = Rmax + s * 0.5;
    sym_near(A.enclosed_charge(o), N, 1e-8, "all charge enclosed"); sym_near(A.hartree_screening(o), N, 1e-8, "complete screening"); sym_near(A.enclosed_charge(Rmax), N, 1e-8, "all charge enclosed at the end"); sym_near(A.hartree_screening(Rmax), N, 1e-8, "complete screening at the end");
    sym_near(A.enclosed_charge(0.0), 0, 0, "nothing enclosed"); sym_near(A.hartree_screening(0.0), 0, 0, "no screening at the nucleus"); sym_near(A.hartree_screening(-s), 0, 0, "no screening");
    // continuity at the shared boundary
    double m = db::tab::bval()[1]; sym_near(A.enclosed_charge(m), Q[0], 1e-8, "charge of the first element"); sym_near(A.hartree_screening(m), Q[0] + m * M[1], 1e-8, "screening at the boundary");
    xc_terms(1) = {}; sym_near(A.effective_charge(r, 0, 0), Z - in - r * out, 1e-8, "effective charge without exchange");
    modelpotential::SAPFEAtom V(Z, 0, 0), V0(0); sym_near(V.V(r), -(Z - in - r * out) / r, 1e-8, "potential"); sym_near(V0.V(r), 0, 0, "dummy centre");
    std::vector<double> bp = V.breakpoints(0, Rmax), bq = V.breakpoints(0.1 * s, 3 * s), b0 = V0.breakpoints(0, 3 * s), bm = V.breakpoints(m, 3 * s);
    sym_assert(bp.size() == 1 && bq.size() == 2 && b0.empty() && bm.size() == 1, "kinks inside the interval"); if (bp.size() == 1) sym_near(bp[0], m, 0, "kink position");
  } else if (what == "xc") {
    int xf = cfg("xf", 1), cf = cfg("cf", 0);
    for (int id : {xf, cf}) if (id > 0 && id < 4) {
      int k = 0; auto add = [&](int a, int b, int c, int d, int e) { xc_terms(id).push_back({sym_real(S("e%d_%d", id, k), -1, 1, 0.3 + 0.1 * k - 0.05 * id), {a, b, c, d, e}}); k++; };
      add(2, 0, 0, 0, 0); add(0, 2, 0, 0, 0); add(1, 1, 0, 0, 0);
      if (id > 1) { add(0, 0, 1, 0, 0); add(0, 0, 0, 1, 0); add(0, 0, 0, 0, 1); add(1, 0, 1, 0, 0); add(0, 1, 1, 0, 0); add(1, 0, 0, 1, 0); add(0, 1, 0, 0, 1); add(0, 0, 2, 0, 0); add(0, 0, 1, 1, 0); add(0, 0, 1, 0, 1); add(0, 0, 0, 2, 0); add(0, 0, 0, 1, 1); add(0, 0, 0, 0, 2); }
    }
    double n = 0.5 * q / f, g = 0.5 * d1 / f, gp = 0.5 * d2 / f, sg = g * g, sp = 2 * g * gp;
    double v[5] = {n, n, sg, sg, sg}, vp[5] = {g, g, sp, sp, sp}, tot = 0;
    for (int id : {xf, cf}) if (id > 0) for (int a = 0; a < 2; a++) {
      double t = xc_deriv(id, v, a, -1);
      if (id > 1) {
        int same = a == 0 ? 2 : 4, w[2] = {same, 3}; double fac[2] = {2, 1};
        for (int i = 0; i < 2; i++) { double vs = xc_deriv(id, v, w[i], -1), dvs = 0; for (int k = 0; k < 5; k++) dvs += xc_deriv(id, v, w[i], k) * vp[k]; t -= fac[i] * (dvs * g + vs * gp + 2 / r * vs * g); }
      }
      tot += 0.5 * t;
    }
    sym_assume(n > 1e-3);
    sym_near(A.xc_screening(r, xf, cf), r * tot, 1e-7, "exchange-correlation screening is the functional derivative");
    sym_near(A.xc_screening(r, 0, 0), 0, 0, "no functional"); sym_near(A.xc_screening(0.0, xf, cf), 0, 0, "at the nucleus"); sym_near(A.xc_screening(Rmax + s, xf, cf), 0, 0, "outside");
    sym_near(A.effective_charge(r, xf, cf), Z - A.hartree_screening(r) - r * tot, 1e-7, "effective charge");
    bool t = false; try { A.xc_screening(r, 4, 0); } catch (std::logic_error &) { t = true; } sym_assert(t, "meta-GGA rejected");
    sym_near(A.xc_screening(r, xf, cf), r * tot, 1e-7, "again after another functional was asked for");
    modelpotential::SAPFEAtom V(Z, xf, cf); sym_near(V.V(r), -A.effective_charge(r, xf, cf) / r, 1e-8, "potential");
  }
}
