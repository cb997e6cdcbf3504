// Nuclear models and screened atomic potentials.
#include "hutil.h"
#include "h_stubs.h"
#include <model_potential.h>
#include <gsz.h>
#include <sap.h>
#include <RadialBasis.h>
using namespace helfem;
using namespace modelpotential;
double sap_cutoff_radius();
typedef std::unique_ptr<ModelPotentialT<double>> MP;
static const double ir2 = 1.0;
void sym_main() {
  std::string what = cfgs("what", "point");
  int Z = cfg("Z", 6);
  if (what == "nuc") {
    int m = cfg("model", 0);
    double R = sym_real("R", 0.05, 2, 0.4), x = sym_real("x", cfg("xlo", 1) / 1000.0, cfg("xhi", 6000) / 1000.0, cfg("xi", 500) / 1000.0), r = x * R;
    MP p(get_nuclear_model<double>((nuclear_model_t)m, Z, R));
    double v = p->V(r), point = -Z / r, z = Z;
    std::vector<double> bp;
    if (m == POINT_NUCLEUS) { sym_near(v, point, 1e-9, "point charge"); bp = p->breakpoints(0, 10); sym_assert(bp.empty(), "no kink"); return; }
    if (m == SPHERICAL_NUCLEUS) {
      double k = std::sqrt(5.0 / 3.0), R0 = k * R;
      if (x >= k) sym_near(v, point, 1e-9, "point charge outside the sphere"); else { sym_near(v, -z * (3 - x * x / (k * k)) / (2 * R0), 1e-9, "uniform charge inside"); sym_le(point, v, 1e-9, "never below the point charge"); }
      double a = sym_real("a", 0, 5, 0.1), b = sym_real("b", 0, 5, 0.7);
      bp = p->breakpoints(a, b);
      if (a < R0 && R0 < b) { sym_assert(bp.size() == 1, "kink reported"); if (bp.size() == 1) sym_near(bp[0], R0, 1e-9, "kink position"); } else sym_assert(bp.empty(), "no kink outside the interval");
      SphericalNucleus *s = dynamic_cast<SphericalNucleus *>(p.get());
      if (s) { s->set_R0(2 * R); sym_near(s->get_R0(), 2 * R, 0, "radius set"); }
    } else if (m == HOLLOW_NUCLEUS) {
      if (x >= 1) sym_near(v, point, 1e-9, "point charge outside the shell"); else { sym_near(v, -z / R, 1e-9, "constant inside"); sym_le(point, v, 1e-9, "never below the point charge"); }
      double a = sym_real("a", 0, 3, 0.1), b = sym_real("b", 0, 3, 0.7);
      bp = p->breakpoints(a, b);
      if (a < R && R < b) { sym_assert(bp.size() == 1, "kink reported"); if (bp.size() == 1) sym_near(bp[0], R, 1e-9, "kink position"); } else sym_assert(bp.empty(), "no kink outside the interval");
    } else if (m == GAUSSIAN_NUCLEUS) {
      double q = std::sqrt(1.5);
      // value/(Z mu) as a function of mu r; series near zero, erf elsewhere
      double u = q * x, S = v * R / (z * q), c = 2 / std::sqrt(M_PI);
      if (cfg("xhi", 6000) <= 20) sym_near(S, -c * (1 - u * u / 3 + u * u * u * u / 10 - u * u * u * u * u * u / 42), 1e-12, "series near the centre");
      else { sym_near(S, -std::erf(u) / u, 1e-9, "Gaussian charge"); sym_le(-1, v * r / z, 1e-9, "never below the point charge"); }
    }
  } else if (what == "gausspts") {  // both representations agree on a ladder of concrete ratios, symbolic size
    double R = sym_real("R", 0.05, 2, 0.4);
    MP p(get_nuclear_model<double>(GAUSSIAN_NUCLEUS, Z, R));
    for (int k = 0; k < 60; k++) { double u = 1e-6 * std::pow(10.0, 0.11 * k); double r = u * R / std::sqrt(1.5), v = p->V(r); sym_near(v * R, -Z * std::sqrt(1.5) * std::erf(u) / u, 1e-9 * Z, "Gaussian charge at a fixed ratio"); }
  } else if (what == "reg") {
    double A = cfg("a", 2);
    RegularizedNucleus n1(1, A), nz(Z, A);
    double a = n1.get_a(), b = n1.get_b();
    sym_near(a, A, 0, "parameter kept"); sym_near(nz.get_b(), b, 1e-12, "second parameter independent of the charge");
    // norm of exp(h)/sqrt(pi): composite Gauss
    std::vector<double> gx, gw; ref_gauss(20, gx, gw); double N = 0;
    for (int s = 0; s < 60; s++) for (int q = 0; q < 20; q++) { double r = 0.5 * (s + 0.5 * (gx[q] + 1)), h = -r * std::erf(a * r) - b * std::exp(-a * a * r * r); N += 4 * r * r * std::exp(2 * h) * gw[q] * 0.25; }
    sym_near(N, 1, 1e-9, "the model orbital is normalised");
    double r = sym_real("r", cfg("rlo", 1) / 1000.0, cfg("rhi", 3000) / 1000.0, cfg("ri", 500) / 1000.0);
    auto ref = [&](double r) { double e = std::exp(-a * a * r * r), f = std::erf(a * r), g = 2 * a / std::sqrt(M_PI) * e, h1 = -f - r * g + 2 * a * a * b * r * e, h2 = -2 * g + 2 * a * a * r * r * g + 2 * a * a * b * e - 4 * a * a * a * a * b * r * r * e; return -0.5 + 0.5 * (h2 + h1 * h1 + 2 * h1 / r); };
    sym_near(n1.V(r), ref(r), 1e-8, "regularised potential");
    sym_near(nz.V(r / Z), Z * Z * n1.V(r), 1e-7, "scaling with the charge");
    for (int k = 0; k < 25; k++) { double t = 1e-7 * std::pow(10.0, 0.3 * k); double lim = t < 1e-3 ? -0.5 - 6 * a / std::sqrt(M_PI) + 3 * a * a * b : ref(t); sym_near(n1.V(t), lim, t < 1e-3 ? 1e-3 : 1e-7, "regularised potential at fixed radii"); }
    sym_near(n1.V(1e-7), -0.5 - 6 * a / std::sqrt(M_PI) + 3 * a * a * b, 1e-8, "value at the nucleus");
  } else if (what == "regalone" ) {
    bool t = false; try { get_nuclear_model<double>(NOSUCH_NUCLEUS, Z, 1.0); } catch (std::logic_error &) { t = true; } sym_assert(t, "unknown nucleus rejected");
    const double prm = cfg("a", 2);
    MP p(get_nuclear_model<double>(REGULARIZED_NUCLEUS, Z, prm)); RegularizedNucleus q(Z, prm);
    double r = sym_real("r", 0.01, 3, 0.4); sym_near(p->V(r), q.V(r), 1e-9, "factory gives the regularised nucleus");
  } else if (what == "mat") {  // matrix of a piecewise potential over an element
    int m = cfg("model", 2), k = cfg("iel", 0);
    double s = sym_real("s", 0.5, 2, 1.0), rho = cfg("rpct", 40) / 100.0;
    VecD bv(3); bv << 0, s, 2.5 * s;
    std::shared_ptr<const polynomial_basis::PolynomialBasisT<double>> poly(polynomial_basis::get_basis(4, cfg("nnodes", 4)));
    polynomial_basis::FiniteElementBasisT<double> fe(poly, bv, true, false, true, false);
    atomic::basis::FEMRadialBasisT<double> rb(fe, 12);
    double R0 = rho * s, kk = m == SPHERICAL_NUCLEUS ? std::sqrt(5.0 / 3.0) : 1.0;
    MP p(get_nuclear_model<double>((nuclear_model_t)m, Z, R0 / kk));
    MatD A = rb.model_potential(p.get(), k);
    std::vector<double> gx, gw; ref_gauss(30, gx, gw);
    double lo = k == 0 ? 0 : 1.0, hi = k == 0 ? 1.0 : 2.5;  // in units of s
    std::vector<double> cuts{lo}; if (m != POINT_NUCLEUS && rho > lo && rho < hi) cuts.push_back(rho); cuts.push_back(hi);
    MatD ref = MatD::Zero(A.rows(), A.cols());
    for (size_t c = 0; c + 1 < cuts.size(); c++) for (size_t q = 0; q < gx.size(); q++) {
      double t = 0.5 * (cuts[c] + cuts[c + 1]) + 0.5 * (cuts[c + 1] - cuts[c]) * gx[q], x = 2 * (t - lo) / (hi - lo) - 1;
      MatD f = fe.eval_dnf(vec1(x), 0, k);
      double V = m == POINT_NUCLEUS || t > rho ? -1 / t : (m == HOLLOW_NUCLEUS ? -1 / rho : -(3 - t * t / (rho * rho)) / (2 * rho));
      for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) ref(i, j) += Z * gw[q] * 0.5 * (cuts[c + 1] - cuts[c]) * V * f(0, i) * f(0, j);
    }
    for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) sym_near(A(i, j), ref(i, j), 1e-7, "model potential matrix");
  } else if (what == "gsz") {
    double d, H; GSZ::GSZ_parameters(Z, d, H);
    struct { int Z; double d; } tab[] = {{1, 1.0}, {2, .215}, {3, .563}, {4, .858}, {6, .880}, {8, .708}, {10, .5}, {11, .561}, {18, .862}, {19, 1.006}, {26, .807}, {36, .689}, {54, .940}, {86, .777}, {92, .880}, {102, .742}, {103, .755}};
    for (auto &t : tab) if (t.Z == Z) sym_near(d, t.d, 1e-12, "published screening length");
    sym_near(H, d * std::pow((double)Z - 1, 0.4), 1e-12, "published screening strength");
    sym_assert(d > 0.2 && d < 1.2, "screening length in range");
    double t = sym_real("t", 0.01, 8, 0.7), r = t * d, z = Z;
    double q = GSZ::Z_GSZ(r, z, d, H), E = std::exp(r / d);
    sym_near(q * (1 + (E - 1) * H), (1 + (E - 1) * H) + z - 1, 1e-7, "screened charge");
    sym_le(1, q, 1e-9, "never below one");
    VecD rv(2); rv << r, 2 * r;
    VecD qv = GSZ::Z_GSZ(rv, Z), qv2 = GSZ::Z_GSZ(rv, z, d, H);
    sym_near(qv(0), q, 1e-12, "vector form"); sym_near(qv(1), GSZ::Z_GSZ(2 * r, z, d, H), 1e-12, "vector form second point"); sym_near(qv2(1), qv(1), 1e-12, "vector form with given parameters");
    double zf = sym_real("zf", 1, 90, 2.5); VecD qf = GSZ::Z_GSZ(rv, zf, 0.5, 0.3); for (int i = 0; i < 2; i++) { double ef = std::exp(rv(i) / 0.5); sym_near(qf(i) * (1 + (ef - 1) * 0.3), (1 + (ef - 1) * 0.3) + zf - 1, 1e-6, "fractional charge"); }
    GSZAtom at(Z), at2(Z, 0.5, 0.3);
    sym_near(at.V(r), -q / r, 1e-9, "potential"); sym_near(at2.V(r), -GSZ::Z_GSZ(r, z, 0.5, 0.3) / r, 1e-9, "potential with given parameters");
    sym_near(GSZ::Z_GSZ(0.0, z, d, H), z, 1e-12, "full charge at the nucleus"); for (double far : {60.0, 700.0, 5000.0}) { double c = GSZ::Z_GSZ(far, z, d, H); sym_assert(std::isfinite(c), "finite charge far away"); sym_near(c, 1, Z == 1 ? 1e-12 : 1e-9, "unit charge far away"); }
    for (int bad : {0, -1, 104, 119}) { bool t = false; try { GSZ::GSZ_parameters(bad, d, H); } catch (std::logic_error &) { t = true; } sym_assert(t, "charges outside the table rejected"); }
  } else if (what == "tf") {
    double t = sym_real("t", 0.05, 3, 0.7);  // sqrt of the scaled radius
    double s = std::cbrt(128.0 * Z / (9 * M_PI * M_PI)), r = t * t / s;
    double al = 0.7280642371, be = -0.5430794693, ga = 0.3612163121, y = 1 + al * t + be * t * t * std::exp(-ga * t), ref = Z * y * y * std::exp(-2 * al * t);
    sym_near(GSZ::Z_thomasfermi(r, Z), ref, 1e-7, "Thomas-Fermi charge");
    VecD rv(2); rv << r, 0.5; VecD q = GSZ::Z_thomasfermi(rv, Z);
    sym_near(q(0), GSZ::Z_thomasfermi(r, Z), 1e-10, "vector form"); sym_near(q(1), GSZ::Z_thomasfermi(0.5, Z), 1e-10, "vector form second point");
    sym_near(TFAtom(Z).V(r) * r, -ref, 1e-7, "potential"); sym_near(GSZ::Z_thomasfermi(0.0, Z), Z, 1e-10, "full charge at the nucleus");
  } else if (what == "sap") {  // tabulated effective charges: window [lo,hi] in 1e-6 bohr
    double lo = cfg("lo", 100000) * 1e-6, hi = cfg("hi", 120000) * 1e-6, h = (hi - lo) * 1e-4;
    double x = sym_real("x", lo, hi, 0.5 * (lo + hi));
    double q = sap_effective_charge(Z, x), p = sap_effective_charge(Z, x + h), ql = sap_effective_charge(Z, lo), qh = sap_effective_charge(Z, hi);
    sym_le(q, Z + 1e-9, 0, "never above the nuclear charge"); sym_le(-0.5, q, 0, "not strongly negative");
    sym_near(SAPAtom(Z).V(x), -q / x, 1e-9, "potential");
    // the table is smooth: no jump anywhere, and between the window's end values
    double M = 4 * std::fabs(qh - ql) / (hi - lo) + 1e-6;
    sym_le(std::fabs(p - q), M * h, 1e-12, "continuous across the knots");
    sym_le(std::fabs(q - ql), 2 * std::fabs(qh - ql), 1e-6, "within the window");
  } else if (what == "sapends") {
    double x = sym_real("x", 40, 200, 60), n = sym_real("n", -5, 0, -1), e = sap_cutoff_radius();
    sym_near(sap_effective_charge(Z, x), sap_effective_charge(Z, e), 0, "constant beyond the table"); sym_near(sap_effective_charge(Z, x), 0, 1e-9, "neutral far away");
    sym_near(sap_effective_charge(Z, n), Z, 1e-9, "full charge at the nucleus"); sym_near(sap_effective_charge(Z, 0), Z, 1e-9, "full charge at the nucleus");
    sym_near(sap_effective_charge(0, x), 0, 0, "no charge"); sym_near(sap_effective_charge(119, 1.0), 0, 0, "outside the table"); sym_near(sap_effective_charge(-3, 1.0), 0, 0, "outside the table");
    double l = sym_real("l", 0, 3e-10, 1e-10), z0 = sap_effective_charge(Z, 0), zl = sap_effective_charge(Z, 3.88998520894912e-10);
    sym_near(sap_effective_charge(Z, l), z0 + (zl - z0) * l / 3.88998520894912e-10, 1e-9, "linear in the first interval");
    double g = sym_real("g", 39.9999960, 39.9999998, 39.9999980); (void)g;
    sym_near(sap_effective_charge(Z, g), 0, 1e-9, "last interval");
  }
}
