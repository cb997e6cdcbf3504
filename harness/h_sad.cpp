// Spherically averaged atom: integrals, densities, radii, screening, orbitals.
#include "hutil.h"
#include "h_bess.h"
#include "h_xc.h"
#include <RadialBasis.h>
#include <NAORadialBasis.h>
#include "sadatom/basis.h"
#include "sadatom/dftgrid.h"
#include "gaunt.h"
using namespace helfem;
typedef polynomial_basis::FiniteElementBasisT<double> FE;
typedef sadatom::basis::TwoDBasis TB;
static const double BETA[6] = {0, 0.6, 1.7, 3.1, 5, 7};
#include "h_aref.h"
static MatD symP(const char *nm, int n) { MatD P(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) P(i, j) = P(j, i) = sym_real(S((std::string(nm) + "%d_%d").c_str(), i, j), -1, 1, 0.3 + 0.1 * (i % 5) - 0.07 * j); return P; }
// orbitals with symbolic coefficients: a positive semidefinite density
static MatD orbP(const char *nm, int n, double s) { VecD c(n); for (int i = 0; i < n; i++) c(i) = sym_real(S((std::string(nm) + "%d").c_str(), i), 0.1, 2, s + 0.1 * i); return c * c.transpose(); }
void sym_main() {
  std::string what = cfgs("what", "one");
  int pb = cfg("primbas", 4), nn = cfg("nnodes", 3), nel = cfg("nel", 2), nq = cfg("nquad", 12), lmax = cfg("lmax", 1), Z = cfg("Z", 3); bool zd = cfg("zd", 0), zr = cfg("zr", 1);
  ref_gauss(cfg("ng", 14), gx, gw);
  double s = cfg("geo", 1) ? sym_real("s", 0.7, 1.5, 1.0) : 1.0;
  VecD bv(nel + 1); for (int i = 0; i <= nel; i++) bv(i) = s * BETA[i];
  std::shared_ptr<const polynomial_basis::PolynomialBasisT<double>> p(polynomial_basis::get_basis(pb, nn));
  TB tb(Z, modelpotential::POINT_NUCLEUS, 0.0, p, zd, nq, bv, lmax, zr);
  FE fe(p, bv, true, false, zr, zd); int nr = fe.get_nbf();
  double tol = std::pow(10.0, -cfg("tole", 8));
  auto one = [](double, int) { return 1.0; };
  auto thr = [&](const std::function<void()> &f) { try { f(); } catch (std::logic_error &) { return true; } return false; };
  auto rp = [&](int n) { return radint(fe, 0, [n](double r, int) { return n >= 0 ? ipow(r, n) : 1 / ipow(r, -n); }); };
  VecD xq = atomic::basis::FEMRadialBasisT<double>(fe, nq).get_xq();
  // u/r and derivatives at a point, embedded in the full basis
  auto at = [&](int e, double x, int d) {
    size_t a, b; fe.get_idx(e, a, b); VecD v = val(fe, x, e), o = VecD::Zero(nr), v1, v2; double r = radc(fe, x, e); if (d) v1 = val(fe, x, e, 1); if (d > 1) v2 = val(fe, x, e, 2);
    for (size_t k = a; k <= b; k++) { int i = k - a; o(k) = d == 0 ? v(i) / r : d == 1 ? v1(i) / r - v(i) / (r * r) : v2(i) / r - 2 * v1(i) / (r * r) + 2 * v(i) / (r * r * r); } return o; };
  auto dot = [&](const MatD &P, const VecD &a, const VecD &b) { return quadf(P, a, b); };
  if (what == "one") {
    sym_assert((int)tb.Nbf() == nr && tb.charge() == Z && (int)tb.get_rad_Nel() == nel, "sizes");
    same(tb.overlap(), radint(fe, 0, one), tol, "overlap"); same(tb.kinetic(), MatD(0.5 * radint(fe, 1, one)), tol * 10, "kinetic energy"); same(tb.kinetic_l(), MatD(0.5 * rp(-2)), tol * 10, "angular kinetic energy");
    same(tb.nuclear(), MatD(-Z * rp(-1)), tol * 10, "nuclear attraction");
    auto R = tb.Rmatrices(); int n = -2; sym_assert(R.size() == 5, "five radial moments");
    for (auto &x : R) { if (n == 0) n++; sym_assert(x.first == n, "power"); same(x.second, rp(n), tol * 1000, S("moment %d", n)); n++; }
    double V = sym_real("V", 0.1, 3, 0.8);
    same(tb.confinement(2, 2.0, 1, V, 0.0), MatD(0.25 * rp(2)), tol * 100, "confinement"); sym_near(tb.confinement(2, 2.0, 0, V, 0.0).norm(), 0, 0, "no confinement");
    // potential with a jump at an element boundary and inside an element
    double c0 = sym_real("c0", -2, 2, 0.4), c1 = sym_real("c1", -2, 2, -0.7); double rk = cfg("inside", 1) ? 1.0 : 0.6;
    auto f = [&](double r) { return r < rk ? c0 * r : c0 * rk + c1 * (r - rk); };
    if (!cfg("geo", 1)) {  // reference: split at the kink
      MatD R = MatD::Zero(nr, nr); for (int e = 0; e < nel; e++) for (int h = 0; h < 2; h++) { double lo = h ? std::max(bv(e), rk) : bv(e), hi = h ? bv(e + 1) : std::min(bv(e + 1), rk); if (lo >= hi) continue; size_t a, b; fe.get_idx(e, a, b); for (size_t g = 0; g < gx.size(); g++) { double r = lo + 0.5 * (hi - lo) * (gx[g] + 1); VecD v = val(fe, 2 * (r - bv(e)) / (bv(e + 1) - bv(e)) - 1, e); R.block(a, a, b - a + 1, b - a + 1) += gw[g] * 0.5 * (hi - lo) * f(r) * v * v.transpose(); } }
      same(tb.potential(f, {rk, 50.0}), R, 1e-9, "radial potential");
    }
    int nel2 = nel + 1; VecD b2(nel2 + 1); for (int i = 0; i <= nel2; i++) b2(i) = s * 0.8 * BETA[i];
    TB t2(Z, modelpotential::POINT_NUCLEUS, 0.0, p, zd, nq, b2, lmax, zr); FE f2(p, b2, true, false, zr, zd);
    atomic::basis::FEMRadialBasisT<double> r1(fe, nq), r2(f2, nq); same(tb.overlap(t2), r1.overlap(r2), 1e-9, "overlap between two bases");
    VecD c(nr); for (int i = 0; i < nr; i++) c(i) = sym_real(S("c_%d", i), -1, 1, 0.3 - 0.1 * i);
    for (int k = 0; k <= cfg("kmax", 2); k++) { MatD G = slater(fe, [k](double r, double q) { return ipow(r, k) / ipow(q, k + 1); }); double F = 0; for (int i = 0; i < nr; i++) for (int j = 0; j < nr; j++) for (int m = 0; m < nr; m++) for (int l = 0; l < nr; l++) F += c(i) * c(j) * G(j * nr + i, l * nr + m) * c(m) * c(l); sym_near(tb.slater_F(k, c), F, 1e-7, S("Slater-Condon integral %d", k)); }
    sym_assert(thr([&]() { tb.slater_F(0, VecD(VecD::Ones(nr + 1))); }), "orbital of wrong length rejected");
  } else if (what == "sinvh") {
    MatD X = tb.Sinvh(); same(MatD(X.transpose() * radint(fe, 0, one) * X), MatD(MatD::Identity(nr, nr)), 1e-8, "orthonormal combinations");
  } else if (what == "jk") {
    int kind = cfg("kernel", 0); double lam = 1, mu = 1;
    if (kind == 1) { lam = sym_real("lam", 0.5, 2, 1.1); il0 = sym_real("i0", 0.5, 2, 1.2); il1 = 0; kl0 = sym_real("k0", 0.5, 2, 0.9); }
    if (kind == 2) { mu = sym_real("mu", 0.5, 1.5, 0.9); ph0 = sym_real("p0", 0.5, 2, 1.2); ph1 = sym_real("p1", -1, 1, 0.3); }
    std::vector<MatD> P; for (int l = 0; l <= lmax; l++) P.push_back(cfg("zero", -1) == l ? MatD(MatD::Zero(nr, nr)) : symP(S("P%d_", l).c_str(), nr));
    std::vector<MatD> R; for (int L = 0; L <= 2 * lmax; L++) {
      Kern k = kind == 0 ? Kern([L](double r, double q) { return ipow(r, L) / ipow(q, L + 1); }) : kind == 1 ? Kern([&, L](double r, double q) { return lam * utils::bessel_il<double>(lam * r, L) * utils::bessel_kl<double>(lam * q, L); }) : Kern([&, L](double r, double q) { return mu * erfc_expn::Phi<double>(L, mu * r, mu * q); });
      R.push_back(MatD(4 * M_PI / (kind == 1 ? 1 : 2 * L + 1) * slater(fe, k))); }
    auto contrJ = [&](const MatD &G, const MatD &D) { MatD J = MatD::Zero(nr, nr); for (int i = 0; i < nr; i++) for (int j = 0; j < nr; j++) for (int k = 0; k < nr; k++) for (int l = 0; l < nr; l++) J(i, j) += G(j * nr + i, l * nr + k) * D(k, l); return J; };
    auto contrK = [&](const MatD &G, const MatD &D) { MatD J = MatD::Zero(nr, nr); for (int i = 0; i < nr; i++) for (int j = 0; j < nr; j++) for (int k = 0; k < nr; k++) for (int l = 0; l < nr; l++) J(i, l) += G(j * nr + i, l * nr + k) * D(j, k); return J; };
    if (kind == 0) {
      sym_assert(thr([&]() { tb.coulomb(P[0]); }) && thr([&]() { tb.exchange(P); }), "integrals must have been computed"); tb.compute_tei();
      same(tb.coulomb(P[0]), contrJ(R[0], P[0]), 1e-6, "Coulomb matrix");
    } else { sym_assert(thr([&]() { tb.rs_exchange(P); }), "integrals must have been computed"); if (cfg("redo", 0)) { tb.compute_erfc(0.7); tb.compute_yukawa(0.7); } if (kind == 1) tb.compute_yukawa(lam); else tb.compute_erfc(mu); }
    // average over the output component, sum over the input components of one shell
    auto K = kind ? tb.rs_exchange(P) : tb.exchange(P); sym_assert((int)K.size() == lmax + 1, "a matrix per l");
    for (int lo = 0; lo <= lmax && lo < (int)K.size(); lo++) {
      MatD ref = MatD::Zero(nr, nr);
      for (int li = 0; li <= lmax; li++) for (int L = 0; L <= lo + li; L++) { double c = 0; for (int mo = -lo; mo <= lo; mo++) for (int mi = -li; mi <= li; mi++) { if (std::abs(mo - mi) > L) continue; double g = y3(lo, mo, L, mo - mi, li, mi); c += g * g; } c /= 2 * lo + 1; if (c < 1e-12) continue; ref -= c * contrK(R[L], P[li]); }
      same(K[lo], ref, kind == 2 ? 1e-4 : 1e-6, S("exchange matrix, l=%d", lo));
    }
    std::vector<MatD> bad(P); bad.pop_back(); sym_assert(thr([&]() { kind ? tb.rs_exchange(bad) : tb.exchange(bad); }), "wrong number of shells rejected");
    bad = P; for (auto &b : bad) b = MatD(MatD::Ones(nr + 1, nr + 1)); sym_assert(thr([&]() { kind ? tb.rs_exchange(bad) : tb.exchange(bad); }), "wrong matrix size rejected");
  } else if (what == "dens") {
    bool cache = cfg("cache", 0); if (cache) tb.fill_quadrature_cache(cfg("cdf", 1), cfg("clf", 1));
    MatD P = symP("P", nr), C(nr, 2); for (int i = 0; i < nr; i++) for (int j = 0; j < 2; j++) C(i, j) = sym_real(S("C%d_%d", i, j), -1, 1, 0.2 * i - 0.3 * j);
    int np = nel * xq.size() + 1; VecD w = tb.quadrature_weights(), r = tb.radii(), n = tb.electron_density(P), nr2 = tb.electron_density(P, true), g = tb.electron_density_gradient(P), l = tb.electron_density_laplacian(P), cs = cfg("scr", 1) ? tb.coulomb_screening(P) : VecD(VecD::Zero(np));
    MatD o = tb.orbitals(C), o1 = tb.orbitals_derivative(C), o2 = tb.orbitals_second_derivative(C);
    for (const VecD *v : {&w, &r, &n, &nr2, &g, &l, &cs}) sym_assert(v->size() == np, "a value per point"); for (const MatD *v : {&o, &o1, &o2}) sym_assert(v->rows() == np && v->cols() == 2, "a row per point");
    std::vector<MatD> Pl; for (int k = 0; k <= lmax; k++) Pl.push_back(orbP(S("d%d_", k).c_str(), nr, 0.3 + 0.2 * k)); VecD t = tb.kinetic_energy_density(Pl); sym_assert(t.size() == np, "a value per point");
    // nucleus: u/r -> u'(0)
    size_t a0, b0; fe.get_idx(0, a0, b0); VecD u1 = VecD::Zero(nr), u2 = u1, q1 = val(fe, -1, 0, 1), q2 = val(fe, -1, 0, 2); u1.segment(a0, b0 - a0 + 1) = q1; u2.segment(a0, b0 - a0 + 1) = q2;
    sym_near(r(0), 0, 0, "nucleus"); sym_near(w(0), 0, 0, "nucleus"); sym_near(cs(0), 0, 0, "nucleus"); sym_near(nr2(0), 0, 1e-9, "radial density at nucleus"); sym_near(n(0), dot(P, u1, u1), 1e-7, "density at nucleus");
    sym_near(tb.nuclear_density(P) * 4 * M_PI, dot(P, u1, u1), 1e-7, "density at nucleus"); sym_near(tb.nuclear_density_gradient(P) * 4 * M_PI, dot(P, u1, u2), 1e-6, "density gradient at nucleus");
    VecD u3 = VecD::Zero(nr); { VecD q3 = val(fe, -1, 0, 3); u3.segment(a0, b0 - a0 + 1) = q3; }
    for (int j = 0; j < 2; j++) { sym_near(o(0, j), u1.dot(C.col(j)), 1e-7, "orbital at nucleus"); sym_near(o1(0, j), u2.dot(C.col(j)) / 2, 1e-6, "orbital derivative at nucleus"); sym_near(o2(0, j), u3.dot(C.col(j)) / 3, 1e-5, "orbital second derivative at nucleus"); }
    for (int e = 0; e < nel; e++) {
      VecD re = tb.get_r(e), we = tb.get_wrad(e); auto bl = tb.bf_list(e); size_t a, b; fe.get_idx(e, a, b); sym_assert(bl.size() == b - a + 1, "functions of one element"); for (size_t k = a; k <= b && k - a < bl.size(); k++) sym_assert(bl[k - a] == (long)k, "functions of one element");
      for (int q = 0; q < xq.size(); q += cfg("stride", 3)) {
        int i = 1 + e * xq.size() + q; double rr = radc(fe, xq(q), e); VecD f = at(e, xq(q), 0), f1 = at(e, xq(q), 1), f2 = at(e, xq(q), 2);
        sym_near(r(i), rr, 1e-12, "radius"); sym_near(re(q), rr, 1e-12, "radius"); sym_near(w(i), we(q), 0, "weight");
        double d0 = dot(P, f, f), g0 = 2 * dot(P, f, f1), h0 = 2 * (dot(P, f1, f1) + dot(P, f, f2));
        sym_near(n(i), d0, 1e-7, "density"); sym_near(nr2(i), d0 * rr * rr, 1e-7, "radial density"); sym_near(g(i) * rr * rr, g0 * rr * rr, 1e-6, "density gradient"); sym_near(l(i) * rr * rr * rr, (h0 * rr + 2 * g0) * rr * rr, 1e-6, "density Laplacian");
        for (int j = 0; j < 2; j++) { sym_near(o(i, j), f.dot(C.col(j)), 1e-7, "orbital"); sym_near(o1(i, j) * rr * rr, f1.dot(C.col(j)) * rr * rr, 1e-7, "orbital derivative"); sym_near(o2(i, j) * rr * rr * rr, f2.dot(C.col(j)) * rr * rr * rr, 1e-7, "orbital second derivative"); }
        double tau = 0; for (int k = 0; k <= lmax; k++) tau += 0.5 * (dot(Pl[k], f1, f1) + k * (k + 1) * dot(Pl[k], f, f) / (rr * rr)); sym_near(t(i) * rr * rr, tau * rr * rr, 1e-5, "kinetic energy density");
        if (!cfg("scr", 1)) continue;
        // r V(r) = charge inside + r * integral of n/r' outside
        double in = 0, out = 0; for (int e2 = 0; e2 < nel; e2++) for (int part = 0; part < 2; part++) {
          double lo = e2 < e ? (part ? 2 : -1) : e2 > e ? (part ? -1 : 2) : part ? xq(q) : -1, hi = e2 == e && !part ? xq(q) : 1; if (lo > 1) continue;
          double h = 0.5 * (hi - lo), J = 0.5 * (fe.element_end(e2) - fe.element_begin(e2));
          for (size_t k = 0; k < gx.size(); k++) { double x = lo + h * (gx[k] + 1), ra = radc(fe, x, e2); VecD v = val(fe, x, e2), F = VecD::Zero(nr); size_t a2, b2; fe.get_idx(e2, a2, b2); F.segment(a2, b2 - a2 + 1) = v; double D = gw[k] * h * J * dot(P, F, F); if (part) out += D / ra; else in += D; } }
        sym_near(cs(i), in + rr * out, 1e-6, "Coulomb screening");
      }
    }
    // orbitals at any radius, zero outside the basis
    for (int e = 0; e < nel; e++) { double x = cfg("xpct", -35) / 100.0; VecD v = tb.eval_orbs(C, radc(fe, x, e)), f = at(e, x, 0); sym_assert(v.size() == 2, "a value per orbital"); for (int j = 0; j < 2 && j < v.size(); j++) sym_near(v(j), f.dot(C.col(j)), 1e-7, "orbital at a radius"); }
    VecD z = tb.eval_orbs(C, bv(nel) + sym_real("dr", 1e-3, 5, 1.0)); for (int j = 0; j < z.size(); j++) sym_near(z(j), 0, 0, "orbital beyond the last element");
  } else if (what == "nao") {
    std::vector<MatD> C; for (int l = 0; l <= lmax; l++) { MatD c(nr, 3); for (int i = 0; i < nr; i++) for (int j = 0; j < 3; j++) c(i, j) = sym_real(S("C%d_%d_%d", l, i, j), -1, 1, 0.2 * i - 0.3 * j + 0.1 * l); C.push_back(c); }
    std::vector<int> keep(lmax + 1); for (int l = 0; l <= lmax; l++) keep[l] = sym_int(S("k%d", l), -1, 4, (l + 2) % 5 - 1);
    bool bad = false; for (int k : keep) bad |= k > 3;
    std::vector<std::pair<int, atomic::basis::NAORadialBasis>> o; bool t = thr([&]() { o = sadatom::basis::extract_naos_per_l(tb, C, keep); }); sym_assert(t == bad, "rejected exactly when too many are requested");
    if (!t) { size_t pos = 0; for (int l = 0; l <= lmax; l++) { if (!keep[l]) continue; sym_assert(pos < o.size() && o[pos].first == l, "one basis per kept shell, in order"); if (pos >= o.size()) break; const auto &b = o[pos++].second; int m = keep[l] < 0 ? 3 : keep[l]; sym_assert((int)b.Nbf() == m, "number of orbitals"); 
        same(b.overlap(), MatD(C[l].leftCols(m).transpose() * radint(fe, 0, one) * C[l].leftCols(m)), 1e-7, "overlap of kept orbitals"); }
      sym_assert(pos == o.size(), "no further bases"); }
    keep.push_back(1); sym_assert(thr([&]() { sadatom::basis::extract_naos_per_l(tb, C, keep); }), "wrong number of shells rejected");
  } else if (what == "vdw" || what == "count" || what == "max") {
    // concrete decaying density
    VecD c(nr); int pk = cfg("peak", 0); { MatD Sm = radint(fe, 0, one); VecD b = VecD::Zero(nr); for (int e = 0; e < nel; e++) { size_t a, q; fe.get_idx(e, a, q); double J = 0.5 * (fe.element_end(e) - fe.element_begin(e)); for (size_t g = 0; g < gx.size(); g++) { double r = radc(fe, gx[g], e); b.segment(a, q - a + 1) += gw[g] * J * (pk ? std::pow(r, 1 + pk) * std::exp(-pk * r) : 2 * r * std::exp(-r)) * val(fe, gx[g], e); } } c = Sm.ldlt().solve(b); }
    MatD P = c * c.transpose(); double k = 4 * M_PI;
    auto n = [&](double r) { if (r <= 0) r = 1e-12; if (r >= bv(nel)) return 0.0; int e = 0; while (r > bv(e + 1)) e++; double x = 2 * (r - bv(e)) / (bv(e + 1) - bv(e)) - 1; return quadf(P, at(e, x, 0), at(e, x, 0)); };
    if (what == "vdw") {
      double acc = std::pow(10.0, -cfg("acce", 1)), t = sym_real("t", cfg("tlo", 10) * 1e-4, cfg("thi", 300) * 1e-4, (cfg("tlo", 10) + 0.3 * (cfg("thi", 300) - cfg("tlo", 10))) * 1e-4);
      double r = tb.vdw_radius(P, t, acc), h = acc * 2;
      sym_le(t, n(r - h) / k, 1e-9, "density inside the radius is above the threshold"); sym_le(n(r + h) / k, t, 1e-9, "density outside the radius is below the threshold");
      sym_near(tb.vdw_radius(P, 1e3, acc), 0, 0, "no density above threshold");
    } else if (what == "count") {
      double acc = std::pow(10.0, -cfg("acce", 1)), t = sym_real("t", cfg("tlo", 10) * 1e-4, cfg("thi", 300) * 1e-4, (cfg("tlo", 10) + 0.3 * (cfg("thi", 300) - cfg("tlo", 10))) * 1e-4);
      double r = 0; try { r = tb.electron_count_radius(P, t, acc); } catch (std::exception &) { r = -1; } double h = acc * 2;
      auto N = [&](double r0) { double s = 0; for (int e = 0; e < nel; e++) { double lo = std::max(r0, bv(e)), hi = bv(e + 1); if (lo >= hi) continue; for (size_t g = 0; g < gx.size(); g++) { double rr = lo + 0.5 * (hi - lo) * (gx[g] + 1); s += gw[g] * 0.5 * (hi - lo) * n(rr) * rr * rr; } } return s; };
      if (t > N(0.0) + 1e-9) sym_le(r, 0, 0, "fewer electrons than the threshold");
      else if (t < N(0.0) - 1e-9) sym_le(0, r, 0, "radius found");
      if (t < N(0.0) - 1e-9) sym_le(t, N(std::max(r - h, 0.0)), 1e-9, "electrons outside a smaller radius exceed the threshold"); sym_le(N(r + h), t, 1e-9, "electrons outside a larger radius are below the threshold");
    } else {
      double sc = sym_real("sc", 0.1, 3, 1.0); double r = tb.electron_density_maximum_radius(MatD(sc * P), true), best = 0; for (int i = 1; i < 400; i++) { double x = bv(nel) * i / 400; double v = n(x) * x * x; if (v > best) best = v; }
      sym_le(best * sc, n(r) * r * r * sc, 1e-6, "no larger radial density anywhere"); sym_assert(r > 0 && r < bv(nel), "inside the basis");
    }
  } else if (what == "xc" || what == "xcscr") {
    xc_setup(); int x = cfg("x", 2), c = cfg("c", 0), nq2 = xq.size();
    double sx = 1, sc = 1; VecD px, pc; double th = sym_real("thr", 1e-14, 1e-9, 1e-11); if (cfg("xp", 0)) { sx = sym_real("sx", -2, 2, 0.8); px = vec1(sx); } if (cfg("cp", 0)) { sc = sym_real("sc", -2, 2, 1.3); pc = vec1(sc); }
    std::vector<std::pair<int, double>> fs; for (auto f : {std::make_pair(x, sx), std::make_pair(c, sc)}) if (f.first > 0) fs.push_back(f);
    double tx = std::pow(10.0, -cfg("tole", 6));
    auto dsum = [&](const xcs::Vars &v, int a) { double s = 0; for (auto &f : fs) s += xcs::de(f.first, v, a, f.second); return s; };
    if (what == "xc") {
      bool pol = cfg("pol", 1); std::vector<MatD> P[2], H[2]; for (int sp = 0; sp < 2; sp++) for (int l = 0; l <= lmax; l++) { P[sp].push_back(sp && !pol ? P[0][l] : orbP(S(sp ? "b%d_" : "a%d_", l).c_str(), nr, 0.2 + 0.1 * l + 0.15 * sp)); H[sp].push_back(MatD::Zero(nr, nr)); }
      double E = 0, N = 0; bool g = false; for (auto &f : fs) g |= f.first != 1 && f.first != 6;
      for (int e = 0; e < nel; e++) { VecD wr = tb.get_wrad(e); for (int q = 0; q < nq2; q++) {
        VecD f = at(e, xq(q), 0), f1 = at(e, xq(q), 1), f2 = at(e, xq(q), 2); double r = radc(fe, xq(q), e), w = 4 * M_PI * wr(q) * r * r; xcs::Vars v{}; double gr[2] = {0, 0};
        for (int sp = 0; sp < 2; sp++) { double tl = 0, ff = 0, ff1 = 0, f11 = 0, ff2 = 0; for (int l = 0; l <= lmax; l++) { double d = dot(P[sp][l], f, f); ff += d; tl += l * (l + 1) * d; ff1 += dot(P[sp][l], f, f1); f11 += dot(P[sp][l], f1, f1); ff2 += dot(P[sp][l], f, f2); }
          v[xcs::RA + sp] = ff; gr[sp] = 2 * ff1; v[xcs::TA + sp] = 0.5 * (f11 + tl / (r * r)); v[xcs::LA + sp] = 2 * (f11 + ff2) + 4 * ff1 / r; }
        v[xcs::SAA] = gr[0] * gr[0]; v[xcs::SAB] = gr[0] * gr[1]; v[xcs::SBB] = gr[1] * gr[1];
        double n = v[xcs::RA] + v[xcs::RB]; N += w * n; for (auto &fu : fs) if (xcs::has_exc(fu.first)) E += w * n * xcs::eps(fu.first, v, fu.second);
        bool kin = false, lp = false; for (auto &fu : fs) { kin |= xcs::tau(fu.first); lp |= xcs::lapl(fu.first); }
        for (int sp = 0; sp < 2; sp++) { double vr = w * dsum(v, xcs::RA + sp), vg = g ? w * (2 * dsum(v, sp ? xcs::SBB : xcs::SAA) * gr[sp] + dsum(v, xcs::SAB) * gr[1 - sp]) : 0, vt = kin ? 0.5 * w * dsum(v, xcs::TA + sp) : 0, vl = lp ? w * dsum(v, xcs::LA + sp) : 0;
          for (int i = 0; i < nr; i++) { if (f(i) == 0 && f1(i) == 0) continue; for (int j = 0; j < nr; j++) { if (f(j) == 0 && f1(j) == 0) continue; double h = vr * f(i) * f(j) + (vg + 2 * vl / r) * (f(i) * f1(j) + f1(i) * f(j)) + (vt + 2 * vl) * f1(i) * f1(j) + vl * (f(i) * f2(j) + f2(i) * f(j)), hl = vt * f(i) * f(j) / (r * r); for (int l = 0; l <= lmax; l++) H[sp][l](i, j) += h + l * (l + 1) * hl; } } }
      } }
      sadatom::dftgrid::DFTGrid grid(&tb); std::vector<MatD> Ha, Hb; double Ex, Ne;
      if (pol) { bool beta = cfg("beta", 1); grid.eval_Fxc(x, px, c, pc, P[0], P[1], Ha, Hb, Ex, Ne, beta, th); sym_assert((int)Ha.size() == lmax + 1, "a matrix per l"); for (int l = 0; l <= lmax; l++) { same(Ha[l], H[0][l], tx, S("potential matrix, first spin, l=%d", l)); if (beta) same(Hb[l], H[1][l], tx, S("potential matrix, second spin, l=%d", l)); } }
      else { std::vector<MatD> P2; for (auto &m : P[0]) P2.push_back(2 * m); grid.eval_Fxc(x, px, c, pc, P2, Ha, Ex, Ne, th); sym_assert((int)Ha.size() == lmax + 1, "a matrix per l"); for (int l = 0; l <= lmax; l++) same(Ha[l], MatD(0.5 * (H[0][l] + H[1][l])), tx, S("potential matrix, l=%d", l)); }
      sym_near(Ex, E, tx, "exchange-correlation energy"); sym_near(Ne, N, tx, "number of electrons"); for (auto &f : fs) sym_near(xcs::last_thr[f.first], th, 0, "density threshold");
    } else {
      // local potential times r: df/dn_s - (1/r^2) d/dr [r^2 df/dn_s'], densities per solid angle
      bool pol = cfg("pol", 1); MatD P[2] = {symP("P", nr), pol ? symP("Q", nr) : MatD()}; if (!pol) P[1] = P[0];
      auto d2 = [&](const xcs::Vars &v, int a, int b) { double s = 0; for (auto &f : fs) s += xcs::de2(f.first, v, a, b); return s; };
      auto ref = [&](int i, int sp) { if (!i) return 0.0; int e = (i - 1) / nq2, q = (i - 1) % nq2; VecD f = at(e, xq(q), 0), f1 = at(e, xq(q), 1), f2 = at(e, xq(q), 2); double r = radc(fe, xq(q), e), n[2], g[2], h[2]; for (int t = 0; t < 2; t++) { n[t] = dot(P[t], f, f) / (4 * M_PI); g[t] = 2 * dot(P[t], f, f1) / (4 * M_PI); h[t] = 2 * (dot(P[t], f1, f1) + dot(P[t], f, f2)) / (4 * M_PI); }
        xcs::Vars v{}; v[0] = n[0]; v[1] = n[1]; bool gg = false; for (auto &f : fs) gg |= xcs::gga(f.first); if (!gg) return r * dsum(v, sp);
        v[xcs::SAA] = g[0] * g[0]; v[xcs::SAB] = g[0] * g[1]; v[xcs::SBB] = g[1] * g[1]; double dv[5] = {g[0], g[1], 2 * g[0] * h[0], g[0] * h[1] + h[0] * g[1], 2 * g[1] * h[1]}; int ss = sp ? xcs::SBB : xcs::SAA; double A = 2 * dsum(v, ss) * g[sp] + dsum(v, xcs::SAB) * g[1 - sp], dA = 2 * dsum(v, ss) * h[sp] + dsum(v, xcs::SAB) * h[1 - sp];
        for (int k = 0; k < 5; k++) dA += (2 * d2(v, ss, k) * g[sp] + d2(v, xcs::SAB, k) * g[1 - sp]) * dv[k]; return r * dsum(v, sp) - r * dA - 2 * A; };
      int np = nel * nq2 + 1;
      if (pol) { MatD v = tb.xc_screening(P[0], P[1], x, c); sym_assert(v.rows() == np && v.cols() == 2, "a value per point and spin"); for (int i = 0; i < np; i += cfg("stride", 2)) for (int sp = 0; sp < 2; sp++) sym_near(v(i, sp), ref(i, sp), tx * 10, "exchange-correlation screening"); }
      else { VecD v = tb.xc_screening(MatD(2 * P[0]), x, c); sym_assert(v.size() == np, "a value per point"); for (int i = 0; i < np; i += cfg("stride", 2)) sym_near(v(i), 0.5 * (ref(i, 0) + ref(i, 1)), tx * 10, "exchange-correlation screening"); }
      sym_assert(thr([&]() { tb.xc_screening(P[0], 3, 0); }) && thr([&]() { tb.xc_screening(P[0], 0, 5); }), "meta-GGAs rejected");
    }
  }
}
