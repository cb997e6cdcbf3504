// Programs that analyse a saved diatomic state: density on a line, orbitals on a grid, completeness and importance profiles.
// Saved coefficients are symbolic; HDF5 is kept in memory, output tables are recorded.
#include "h_scf.h"
#include "h_ang.h"
#include "sadatom/scf.h"
#include "diatomic/twodquadrature.h"
#include "general/angular.h"
#include "general/lcao.h"
#include "general/constants.h"
#include "general/spherical_harmonics.h"
#include "general/timer.h"
#include "chebyshev.h"
#include <cfloat>
#include <climits>
#include <complex>
using namespace helfem;
typedef polynomial_basis::FiniteElementBasis FE; typedef diatomic::basis::TwoDBasis TB;
static std::map<std::string, MatD> files; static std::vector<double> lines; static std::string lfile;
namespace helfem { namespace io { inline void harness_write(const std::string &f, const helfem::Matrix &m) { sym_assert(!files.count(f), "a file is written once"); files[f] = m; } } }
namespace std { struct harness_ofstream { harness_ofstream(const std::string &f) { lfile = f; } harness_ofstream &operator<<(double d) { lines.push_back(d); return *this; } harness_ofstream &operator<<(const char *) { return *this; } harness_ofstream &operator<<(char) { return *this; } void precision(int) {} }; }
static sadatom::scf::AtomicSCFResult ans[2]; static int nruns;
namespace helfem { namespace sadatom { namespace scf { AtomicSCFResult run_atomic_scf(const AtomicSCFOptions &) { return ans[nruns++]; } } } }
#define cmdline hcmd
#define ofstream harness_ofstream
#define write_raw_ascii harness_write
#define main helfem_line_main
#include "diatomic/density_line.cpp"
#undef main
#define main helfem_grid_main
#include "diatomic/density_grid.cpp"
#undef main
#define main helfem_cpl_main
#include "diatomic/completeness.cpp"
#undef main
#undef cmdline
#undef ofstream
#undef write_raw_ascii
static std::string I(int i) { return std::to_string(i); }
static const double BETA[4] = {0, 0.7, 1.6, 2.3};
static double Rh = 0.7;
struct Sys { std::shared_ptr<const polynomial_basis::PolynomialBasis> p; VecD bv; Eigen::VectorXi lv, mv; std::unique_ptr<TB> tb; std::unique_ptr<FE> fe; std::vector<int> pa, pr; int N, nel; };
static Sys make() {
  Sys s; Rh = cfg("rh", 70) * 0.01; s.nel = cfg("nel", 2); static const std::vector<std::vector<std::array<int, 2>>> AM = {{{0, 0}}, {{0, 0}, {1, 0}}, {{0, 0}, {1, 0}, {1, 1}, {1, -1}}, {{1, -1}, {1, 1}, {2, 1}}}; const auto &lm = AM[cfg("am", 2)]; int na = lm.size(); s.lv.resize(na); s.mv.resize(na); for (int i = 0; i < na; i++) { s.lv(i) = lm[i][0]; s.mv(i) = lm[i][1]; }
  s.bv.resize(s.nel + 1); for (int i = 0; i <= s.nel; i++) s.bv(i) = BETA[i]; s.p.reset(polynomial_basis::get_basis(cfg("primbas", 4), cfg("nnodes", 3))); s.tb.reset(new TB(3, 1, Rh, s.p, cfg("nquad", 6), s.bv, s.lv, s.mv, false)); s.fe.reset(new FE(s.p, s.bv, false, false, true, true)); int nr = s.fe->get_nbf();
  for (int i = 0; i < na; i++) for (int k = s.mv(i) ? 1 : 0; k < nr; k++) { s.pa.push_back(i); s.pr.push_back(k); } s.N = s.pa.size(); sym_assert((int)s.tb->Nbf() == s.N, "basis size"); return s;
}
// real radial-times-polar parts of all functions at (mu, cos nu); the azimuthal part is exp(i m phi)
static VecD bfs(const Sys &s, double mu, double x) { int nr = s.fe->get_nbf(); VecD f = VecD::Zero(nr), o = VecD::Zero(s.N); for (int e = 0; e < s.nel; e++) if (mu >= s.bv(e) && (mu <= s.bv(e + 1))) { size_t a, b; s.fe->get_idx(e, a, b); f.setZero(); f.segment(a, b - a + 1) = s.fe->eval_dnf(vec1(2 * (mu - s.bv(e)) / (s.bv(e + 1) - s.bv(e)) - 1), 0, e).row(0).transpose(); } for (int i = 0; i < s.N; i++) o(i) = f(s.pr[i]) * theta(s.lv(s.pa[i]), s.mv(s.pa[i]), x); return o; }
static void t_line() {
  Sys s = make(); Scratch scr; std::string f = scr.file("l.chk"); MatD P[2]; int q = 0; for (int t = 0; t < 2; t++) { P[t] = MatD::Zero(s.N, s.N); for (int i = 0; i < s.N; i++) for (int j = 0; j <= i; j++) P[t](i, j) = P[t](j, i) = (i + j + t) % cfg("sp", 3) == 0 ? sym_real(S("p%d", q++), -2, 2, 0.3 + 0.1 * i - 0.1 * j) : 0.2 - 0.07 * ((2 * i + 3 * j + t) % 5); }
  { Checkpoint c(f, true); c.write(*s.tb); c.write("Pa", helfem::Matrix(P[0])); c.write("Pb", helfem::Matrix(P[1])); c.write("Rhalf", Rh); }
  static const double XY[][2] = {{0, 0}, {0.4, 0.3}, {-0.5, 0.2}, {0, -1.1}, {1e-9, 0}}; int k = cfg("xy", 0), Nz = cfg("Nz", 9); double zl = -cfg("zr", 12) * 0.1, zh = cfg("zh", 40) * 0.1; lines.clear(); hcmd::over["x"] = XY[k][0]; hcmd::over["y"] = XY[k][1]; hcmd::over["zmin"] = zl; hcmd::over["zmax"] = zh;
  run_main(helfem_line_main, {"--load=" + f, "--Nz=" + I(Nz), "--savedens=OUT"}); sym_assert(lfile == "OUT", "output file"); sym_assert((int)lines.size() == 4 * Nz, "four columns per point"); if ((int)lines.size() != 4 * Nz) return;
  for (int iz = 0; iz < Nz; iz++) { double z = Nz > 1 ? zl + (zh - zl) * iz / (Nz - 1) : zh, r2 = XY[k][0] * XY[k][0] + XY[k][1] * XY[k][1], phi = std::atan2(XY[k][1], XY[k][0]); long double a = sqrtl((z + Rh) * (z + Rh) + r2), b = sqrtl((z - Rh) * (z - Rh) + r2), xi = (a + b) / (2 * Rh), et = (a - b) / (2 * Rh); if (xi < 1) xi = 1; double mu = acoshl(xi), x = std::max(-1.0L, std::min(1.0L, et)); double ref[3] = {0, 0, 0};
    sym_near(lines[4 * iz], z, 1e-9, "coordinate"); if (std::fabs(mu - s.bv(s.nel)) < 1e-6) continue; if (mu < s.bv(s.nel)) { VecD o = bfs(s, mu, x); for (int t = 0; t < 2; t++) for (int i = 0; i < s.N; i++) for (int j = 0; j < s.N; j++) { double w = o(i) * o(j) * std::cos((s.mv(s.pa[i]) - s.mv(s.pa[j])) * phi); if (w != 0) ref[t] += P[t](i, j) * w; } ref[2] = ref[0] + ref[1]; }
    for (int t = 0; t < 3; t++) sym_near(lines[4 * iz + 1 + t], ref[t], 1e-6, S(t == 2 ? "total density, point %d" : t ? "beta density, point %d" : "alpha density, point %d", iz)); }
}
static MatD coef(const Sys &s, int t, int nocc) { MatD C(s.N, s.N); int q = 0; for (int i = 0; i < s.N; i++) for (int j = 0; j < s.N; j++) C(i, j) = j < nocc && (i + j) % cfg("sp", 2) == 0 && q < cfg("maxc", 8) ? sym_real(S("c%d_%d", t, q++), -1, 1, 0.3 - 0.1 * ((i + j) % 5)) : 0.25 - 0.1 * ((i + 3 * j + t) % 6); return C; }
static void t_grid() {
  Sys s = make(); Scratch scr; std::string f = scr.file("g.chk"), out = scr.file("o.chk"); int na = cfg("na", 2), nb = cfg("nb", 1); MatD C[2] = {coef(s, 0, na), coef(s, 1, nb)}; MatD X = s.tb->Sinvh(false, 0); bool full = cfg("full", 1);
  { Checkpoint c(f, true); c.write(*s.tb); c.write("Ca", helfem::Matrix(full ? C[0] : MatD(C[0].leftCols(na)))); c.write("Cb", helfem::Matrix(full ? C[1] : MatD(C[1].leftCols(nb)))); c.write("nela", na); c.write("nelb", nb); c.write("Sinvh", helfem::Matrix(X)); }
  int lang = cfg("lang", 3), mang = cfg("mang", 3); run_main(helfem_grid_main, {"--load=" + f, "--lang=" + I(lang), "--mang=" + I(mang), "--output=" + out});
  if (lang <= 0) lang = 4 * s.lv.maxCoeff() + 12; if (mang <= 0) mang = 4 * s.mv.cwiseAbs().maxCoeff() + 5;
  Checkpoint c(out, false); helfem::Vector mu, dV, wq, ct, ph, D, D0, D1; helfem::Matrix O[2][2], T[2][2]; c.read("mu", mu); c.read("dV", dV); c.read("wquad", wq); c.read("cth", ct); c.read("phi", ph); c.read("P", D); c.read("Pa", D0); c.read("Pb", D1); for (int t = 0; t < 2; t++) { std::string b = t ? "b" : "a"; if (t && !nb) { sym_assert(!c.exist("orbb.re") && !c.exist("Torbb.re"), "no beta orbitals"); continue; } c.read("orb" + b + ".re", O[t][0]); c.read("orb" + b + ".im", O[t][1]); c.read("Torb" + b + ".re", T[t][0]); c.read("Torb" + b + ".im", T[t][1]); }
  double R_; int z1, z2, mm; c.read("Rh", R_); c.read("Z1", z1); c.read("Z2", z2); c.read("mmax", mm); sym_assert(R_ == Rh && z1 == 3 && z2 == 1 && mm == s.mv.maxCoeff(), "molecule");
  VecD gx_, gw_; chebyshev::chebyshev(lang, gx_, gw_); int nq = s.tb->get_r(0).size(), n = s.nel * nq * lang * mang; sym_assert(mu.size() == n && dV.size() == n && wq.size() == n && ct.size() == n && ph.size() == n && D.size() == n && D0.size() == n && D1.size() == n, "grid size"); if (mu.size() != n || D.size() != n || D0.size() != n || D1.size() != n) return;
  // every node of the product grid occurs once, with its weight
  std::map<std::tuple<int, int, int, int>, int> seen; int no[2] = {na, nb}; MatD STC[2]; MatD Tm = X * (X.transpose() * s.tb->kinetic()); for (int t = 0; t < 2; t++) { STC[t] = MatD::Zero(s.N, no[t]); for (int j = 0; j < no[t]; j++) for (int i = 0; i < s.N; i++) for (int k = 0; k < s.N; k++) if (Tm(i, k) != 0) STC[t](i, j) += Tm(i, k) * C[t](k, j); }
  int stepc = cfg("step", 1);
  for (int i = 0; i < n; i++) { int e = -1, q = -1, a = -1, b = -1; for (int u = 0; u < s.nel; u++) { VecD r = s.tb->get_r(u); for (int v = 0; v < nq; v++) if (std::fabs(r(v) - mu(i)) < 1e-10) { e = u; q = v; } } for (int u = 0; u < lang; u++) if (std::fabs(gx_(u) - ct(i)) < 1e-10) a = u; for (int u = 0; u < mang; u++) if (std::fabs(2 * M_PI * u / mang - ph(i)) < 1e-9) b = u; sym_assert(e >= 0 && a >= 0 && b >= 0, "node of the product grid"); if (e < 0 || a < 0 || b < 0) return; sym_assert(seen[{e, q, a, b}]++ == 0, "every node once");
    double w = s.tb->get_wrad(e)(q) * gw_(a) * 2 * M_PI / mang, x = ct(i), vol = Rh * Rh * Rh * std::sinh(mu(i)) * (std::cosh(mu(i)) * std::cosh(mu(i)) - x * x) * w; sym_near(wq(i), w, 1e-9, "quadrature weight"); sym_near(dV(i), vol, 1e-9, "volume element"); if (i % stepc) continue;
    VecD o = bfs(s, mu(i), x); double den[2] = {0, 0}; for (int t = 0; t < 2; t++) for (int j = 0; j < no[t]; j++) { double re = 0, im = 0, tr = 0, ti = 0; for (int k = 0; k < s.N; k++) if (o(k) != 0) { double m = s.mv(s.pa[k]); re += o(k) * std::cos(m * ph(i)) * C[t](k, j); im += o(k) * std::sin(m * ph(i)) * C[t](k, j); tr += o(k) * std::cos(m * ph(i)) * STC[t](k, j); ti += o(k) * std::sin(m * ph(i)) * STC[t](k, j); } den[t] += re * re + im * im; if (O[t][0].rows() != n || O[t][1].rows() != n || T[t][0].rows() != n || T[t][1].rows() != n || O[t][0].cols() != no[t] || T[t][0].cols() != no[t]) { sym_assert(false, "orbital table shape"); return; }
      sym_near(O[t][0](i, j), re, 1e-8, "orbital, real part"); sym_near(O[t][1](i, j), im, 1e-8, "orbital, imaginary part"); sym_near(T[t][0](i, j), tr, 1e-5, "kinetic energy operator on orbital, real part"); sym_near(T[t][1](i, j), ti, 1e-5, "kinetic energy operator on orbital, imaginary part"); }
    sym_near(D0(i), den[0], 1e-7, "alpha density"); sym_near(D1(i), den[1], 1e-7, "beta density"); sym_near(D(i), den[0] + den[1], 1e-7, "density"); }
}
static MatD pinv(const MatD &S) { Eigen::SelfAdjointEigenSolver<MatD> es(S); MatD r = MatD::Zero(S.rows(), S.cols()); for (int i = 0; i < S.rows(); i++) if (es.eigenvalues()(i) >= 1e-6) r += es.eigenvectors().col(i) * es.eigenvectors().col(i).transpose() / es.eigenvalues()(i); return r; }
static void t_cpl() {
  using namespace diatomic::twodquad; Sys s = make(); Scratch scr; std::string f = scr.file("c.chk"); int na = cfg("na", 2), nb = cfg("nb", 1), sto = cfg("sto", 0), L = cfg("L", 1), nx = cfg("nexp", 3); MatD C[2] = {coef(s, 0, na), coef(s, 1, nb)}; MatD X = s.tb->Sinvh(false, 0), Si = X * X.transpose();
  { Checkpoint c(f, true); c.write(*s.tb); c.write("Ca", helfem::Matrix(C[0])); c.write("Cb", helfem::Matrix(C[1])); c.write("nela", na); c.write("nelb", nb); c.write("Sinvh", helfem::Matrix(X)); }
  VecD ab(3); ab << 0, 0.8, 30; std::shared_ptr<const polynomial_basis::PolynomialBasis> ap(polynomial_basis::get_basis(4, 3)); int oc = cfg("oc", 0); static const int OCS[2][2][2] = {{{2, 1}, {1, 0}}, {{0, 0}, {0, 0}}}; auto OC = OCS[oc];
  for (int sd = 0; sd < 2; sd++) { ans[sd].basis = sadatom::basis::TwoDBasis(sd ? 1 : 3, modelpotential::POINT_NUCLEUS, 0.0, ap, false, 8, ab, 1); int n = ans[sd].basis.Nbf(); ans[sd].orbs_a.resize(2); ans[sd].occs_a = Eigen::VectorXi(2); for (int l = 0; l < 2; l++) { MatD c(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c(i, j) = 0.2 + 0.1 * i - 0.2 * j + 0.3 * sd + 0.1 * l; ans[sd].orbs_a[l] = c; ans[sd].occs_a(l) = OC[sd][l]; } }
  double lo = 0.05, hi = 5; hcmd::over["minexp"] = lo; hcmd::over["maxexp"] = hi; nruns = 0; files.clear(); run_main(helfem_cpl_main, {"--load=" + f, "--completeness=" + I(L), "--nexp=" + I(nx), "--iprobe=" + I(sto), "--ldft=" + I(cfg("ldft", 12))}); sym_assert(nruns == 2, "both atoms are solved");
  nruns = 0; TwoDGrid g(s.tb.get(), cfg("ldft", 12)); g.compute_atoms(3, 1); std::vector<int> ms(s.mv.data(), s.mv.data() + s.mv.size()); std::sort(ms.begin(), ms.end()); ms.erase(std::unique(ms.begin(), ms.end()), ms.end()); size_t want = 0; const char *nm[3] = {"lh", "mid", "rh"}; probe_t pb[3] = {PROBE_LEFT, PROBE_MIDDLE, PROBE_RIGHT}; VecD ex(nx); for (int i = 0; i < nx; i++) ex(i) = lo * std::pow(hi / lo, nx > 1 ? i / (nx - 1.0) : 1);
  for (int m : ms) { std::vector<MatD> mb; int nm_ = 0; for (probe_t p : {PROBE_LEFT, PROBE_RIGHT}) for (int l = std::abs(m); l <= L; l++) { MatD q = g.atomic_projection(l, m, p); if (q.size()) { mb.push_back(q); nm_ += q.rows(); } } MatD M(nm_, s.N); int o = 0; for (auto &q : mb) { M.middleRows(o, q.rows()) = q; o += q.rows(); }
    for (int l = std::abs(m); l <= L; l++) for (int c = 0; c < 3; c++) { want += 3; std::string t = std::string("_") + (sto ? "sto" : "gto") + "_" + nm[c] + "_" + I(l) + "_" + I(m) + ".dat"; bool ok = files.count("importance0" + t) && files.count("importance" + t) && files.count("completeness" + t); sym_assert(ok, "profiles" + t); if (!ok) return; const MatD &A = files["importance0" + t], &B = files["importance" + t], &Y = files["completeness" + t]; ok = A.rows() == nx && A.cols() == 3 && B.rows() == nx && B.cols() == 3 && Y.rows() == nx && Y.cols() == 2; sym_assert(ok, "profile shape"); if (!ok) return;
      MatD P = sto ? g.sto_projection(l, m, ex, pb[c]) : g.gto_projection(l, m, ex, pb[c]);
      for (int k = 0; k < nx; k++) { for (const MatD *q : {&A, &B, &Y}) sym_near((*q)(k, 0), ex(k), 1e-9 * ex(k), "exponent"); VecD p = P.row(k).transpose(); sym_near(Y(k, 1), p.dot(Si * p), 1e-8, "completeness"); MatD Mp(nm_ + 1, s.N); Mp.topRows(nm_) = M; Mp.row(nm_) = p.transpose(); MatD Ip = pinv(Mp * Si * Mp.transpose()), I0 = nm_ ? pinv(M * Si * M.transpose()) : MatD(0, 0); MatD W = Mp.transpose() * Ip * Mp; if (nm_) W -= M.transpose() * I0 * M; int no[2] = {na, nb};
        for (int t = 0; t < 2; t++) { double v0 = 0, v1 = 0; for (int j = 0; j < no[t]; j++) { double d = 0; for (int i = 0; i < s.N; i++) d += p(i) * C[t](i, j); v0 += d * d; if (nm_) for (int i = 0; i < s.N; i++) for (int h = 0; h < s.N; h++) if (W(i, h) != 0) v1 += W(i, h) * C[t](i, j) * C[t](h, j); } if (!nm_) v1 = v0; sym_near(A(k, 1 + t), v0, 1e-7, "importance"); sym_near(B(k, 1 + t), v1, 1e-5, "importance beyond the minimal basis"); } } } }
  sym_assert(files.size() == want, "profiles written");
}
void sym_main() { std::string w = cfgs("what", "line"); if (w == "line") t_line(); if (w == "grid") t_grid(); if (w == "cpl") t_cpl(); }
