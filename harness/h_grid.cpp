// Element grids: all laws, finite-nucleus, off-centre and confinement variants.
#include "hutil.h"
#include <helfem.h>
#include "../atomic/basis.h"
#include <grid.h>
using namespace helfem;
static double ref(int ig, double rmax, int n, int i, double z) {
  double t = (double)i / n;
  if (i == 0) return 0;
  if (ig == 1) return rmax * t;
  if (ig == 2) return rmax * t * t;
  if (ig == 3) return rmax * std::pow(t, z);
  if (ig == 4) return std::exp(std::log(1 + rmax) * std::pow(t, z)) - 1;
  double s = 0, tot = 0;
  for (int k = 0; k < n; k++) { double h = ipow(z, n - 1 - k); tot += h; if (k < i) s += h; }
  return rmax * s / tot;
}
static void increasing(const VecD &b) { for (int i = 0; i + 1 < b.size(); i++) sym_assert(b(i + 1) > b(i), S("boundary %d above boundary %d", i + 1, i)); }
void sym_main() {
  std::string what = cfgs("what", "grid");
  int ig = cfg("igrid", 4), n = cfg("nel", 4);
  double z = cfg("zsym", 1) ? (ig == 5 ? sym_real("z", 0.2, 0.9, 0.5) : sym_real("z", 1, 3, 2)) : (ig == 5 ? 0.5 : 2.0);
  if (what == "grid") {
    double rmax = sym_real("rmax", 0.5, 60, 20);
    VecD b = cfg("tmpl", 0) ? grid::get_grid<double>(rmax, n, ig, z) : utils::get_grid(rmax, n, ig, z);
    sym_assert(b.size() == n + 1, "number of boundaries");
    sym_near(b(0), 0, 0, "starts at zero"); sym_near(b(n), rmax, 0, "ends at rmax");
    increasing(b);
    for (int i = 0; i <= n; i++) sym_near(b(i), ref(ig, rmax, n, i, z), 1e-8, S("boundary %d follows the law", i));
    bool threw = false;
    try { utils::get_grid(rmax, n, 6, z); } catch (std::logic_error &) { threw = true; }
    sym_assert(threw, "unknown grid rejected");
  } else if (what == "nuc") {
    int model = cfg("model", 1), n0 = cfg("n0", 2), ig0 = cfg("igrid0", 1);
    double rmax = sym_real("rmax", 10, 60, 20), rr = sym_real("Rrms", 0.01, 0.5, 0.1);
    VecD b = atomic::basis::form_grid((modelpotential::nuclear_model_t)model, rr, n, rmax, ig, z, n0, ig0, 2.0, 1, 0, 0, 0.0);
    increasing(b);
    sym_near(b(0), 0, 0, "starts at zero"); sym_near(b(b.size() - 1), rmax, 1e-10, "ends at rmax");
    if (model == modelpotential::POINT_NUCLEUS || model == modelpotential::REGULARIZED_NUCLEUS) sym_assert(b.size() == n + 1, "normal grid");
    else {
      double rn = model == modelpotential::HOLLOW_NUCLEUS ? rr : model == modelpotential::SPHERICAL_NUCLEUS ? std::sqrt(5.0 / 3.0) * rr : 3 * rr;
      sym_assert(b.size() == n + 2 * n0 + 1 || n0 == 0, "number of boundaries");
      if (n0) { sym_near(b(n0), rn, 1e-10, "nuclear radius is a boundary"); for (int i = 0; i <= n0; i++) { sym_near(b(i), ref(ig0, rn, n0, i, 2.0), 1e-9, "grid inside the nucleus"); sym_near(b(n0 + i), rn + ref(ig0, rn, n0, i, 2.0), 1e-9, "grid just outside the nucleus"); } }
    }
  } else if (what == "off") {
    int Z = cfg("Z", 1), Zl = cfg("Zl", 1), Zr = cfg("Zr", 1), n0 = cfg("n0", 2);
    double rmax = sym_real("rmax", 10, 60, 20), rh = sym_real("rh", 0.3, 3, 1.2);
    VecD b = atomic::basis::form_grid(modelpotential::POINT_NUCLEUS, 0.0, n, rmax, ig, z, n0, ig, 2.0, Z, Zl, Zr, rh);
    increasing(b);
    sym_near(b(0), 0, 0, "starts at zero"); sym_near(b(b.size() - 1), rmax, 1e-10, "ends at rmax");
    int nb = (Z ? n0 : 0) + n0, at = nb;
    sym_assert(b.size() == n + nb + 1, "number of boundaries");
    sym_near(b(at), rh, 1e-10, "the off-centre nuclei sit on a boundary");
  } else if (what == "conf") {
    double rmax = sym_real("rmax", 10, 60, 20), sh = sym_real("shift", 0, 10, 3.3);
    VecD b0 = atomic::basis::form_grid(modelpotential::POINT_NUCLEUS, 0.0, n, rmax, ig, z, 0, ig, 2.0, 1, 0, 0, 0.0);
    VecD b = atomic::basis::form_grid(modelpotential::POINT_NUCLEUS, 0.0, n, rmax, ig, z, 0, ig, 2.0, 1, 0, 0, 0.0, true, sh);
    increasing(b);
    bool in = false, dup = false;
    for (int i = 0; i < b.size(); i++) if (b(i) == sh) in = true;
    for (int i = 0; i < b0.size(); i++) if (b0(i) == sh) dup = true;
    sym_assert(in, "confinement radius is a boundary");
    sym_assert(b.size() == b0.size() + (dup ? 0 : 1), "one boundary added");
    sym_near(b(0), 0, 0, "starts at zero"); sym_near(b(b.size() - 1), rmax, 0, "ends at rmax");
  }
}
