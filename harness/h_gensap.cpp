// Spherical-atom program around its self-consistent solution: options handed over, occupations, tables written.
// The solver is replaced by a stand-in that records its input and returns a state with symbolic coefficients.
#include "h_scf.h"
#include "sadatom/scf.h"
#include "atomic/basis.h"
#include "general/lcao.h"
#include "general/elements.h"
#include "hutil.h"
using namespace helfem;
typedef sadatom::scf::AtomicSCFOptions Opt; typedef sadatom::scf::AtomicSCFResult Res;
static std::function<Res(const Opt &)> solve; static std::map<std::string, MatD> files;
namespace helfem { namespace sadatom { namespace scf { AtomicSCFResult run_atomic_scf(const AtomicSCFOptions &o) { return ::solve(o); } } }
namespace io { inline void harness_write(const std::string &f, const helfem::Matrix &m) { sym_assert(!files.count(f), "a file is written once"); files[f] = m; } } }
#define cmdline hcmd
#define write_raw_ascii harness_write
#define vdw_radius(P, t) nuclear_density(P)
#define electron_count_radius(P, t) nuclear_density(P)
#define main helfem_sadatom_main
#include "sadatom/main.cpp"
#undef main
#undef cmdline
#undef write_raw_ascii
#undef vdw_radius
#undef electron_count_radius
static std::string I(int i) { return std::to_string(i); }
static const int Z = 5;
static std::vector<std::string> base(int lmax, int restr) { return {"--Z=B", "--lmax=" + I(lmax), "--nelem=" + I(cfg("nel", 2)), "--nnodes=" + I(cfg("nnodes", 3)), "--Rmax=3", "--grid=1", "--verbosity=0", "--M=" + I(2 * !restr), "--restricted=" + I(restr), "--method=HF", "--primbas=4", "--nela=0"}; }
static int go(std::vector<std::string> a) { return run_main(helfem_sadatom_main, a); }

static void t_opts() {
  auto &O = hcmd::overi; auto &D = hcmd::over; auto a = base(1, 1); a.push_back("--M=0"); int ic = cfg("iconf", 0), g = cfg("grid", 4), ac = cfg("add", 1);
  a.erase(std::find(a.begin(), a.end(), "--M=0")); for (auto &x : a) { if (x == "--grid=1") x = "--grid=" + I(g); if (x == "--method=HF") x = "--method=1-6"; if (x == "--M=0") x = "--Q=1"; }
  double Rmax = D["Rmax"] = sym_real("Rmax", 20, 60, 40), ze = D["zexp"] = sym_real("zexp", 1, 3, 2), th = D["dftthr"] = sym_real("thr", 1e-14, 1e-8, 1e-12), ct = D["convthr"] = sym_real("conv", 1e-9, 1e-5, 1e-7), cR = D["conf_R"] = sym_real("conf_R", 1, 9, 4), cb = D["conf_barrier"] = sym_real("barrier", 0, 9, 2), sh = D["shift_conf"] = sym_real("shift", 1, 5, 2);
  int N = O["conf_N"] = sym_int("conf_N", 0, 9, 3), mi = O["maxiter"] = sym_int("maxiter", 0, 999, 50), ig = O["iguess"] = sym_int("iguess", 0, 4, 2);
  a.push_back("--iconf=" + I(ic)); a.push_back("--add_conf=" + I(ac)); for (const char *x : {"--scfmethods=ODA+CG", "--load=LOAD", "--save=SAVE", "--x_pars=0.5 2", "--c_pars=3"}) a.push_back(x);
  bool ran = false; xc_setup();
  solve = [&](const Opt &o) -> Res { ran = true; VecD bv = atomic::basis::form_grid(modelpotential::POINT_NUCLEUS, 0, cfg("nel", 2), Rmax, g, ze, 0, 0, 0, Z, 0, 0, 0, ic && ac, sh);
    sym_assert(o.Z == Z && o.lmax == 1 && o.nela == 2 && o.nelb == 2 && o.restricted && o.x_func == 1 && o.c_func == 6 && o.scf_methods == "ODA+CG" && o.load_file == "LOAD" && o.save_file == "SAVE" && o.finitenuc == modelpotential::POINT_NUCLEUS && !o.zeroder, "system and files");
    sym_assert(o.poly->get_nbf() == cfg("nnodes", 3) + 0 * o.Nquad && o.poly->get_id() == 4 && o.Nquad == 5 * o.poly->get_nbf(), "element basis"); sym_assert(o.bval.size() == bv.size(), "elements"); if (o.bval.size() == bv.size()) for (int i = 0; i < bv.size(); i++) sym_near(o.bval(i), bv(i), 1e-9, "element boundary");
    sym_assert(o.iconf == ic && o.conf_N == N && o.maxiter == mi && o.iguess == ig && o.fixed_per_l_a.size() == 0 && o.fixed_per_l_b.size() == 0, "whole-number options");
    sym_assert(o.conf_R == cR && o.conf_barrier == cb && o.shift_conf == sh && o.dftthr == th && o.convthr == ct, "real options"); sym_assert(o.x_pars.size() == 2 && o.c_pars.size() == 1 && o.x_pars(0) == 0.5 && o.x_pars(1) == 2 && o.c_pars(0) == 3, "functional parameters"); throw 1; };
  try { go(a); } catch (int) {} sym_assert(ran, "calculation starts");
}
static void t_occs() {
  int lmax = cfg("lmax", 1), R = cfg("restr", 0), n = cfg("n", 2), nl = lmax + 1, hund = cfg("hund", -1); static const char *T[] = {"0", "3", "2.5", "8", "1e0"}; static const double X[] = {0, 3, 2.5, 8, 1}; std::string s; std::vector<double> v; int np = cfg("pool", 5);
  for (int i = 0; i < n; i++) { if (i) s += " "; if (hund >= 0) { int k = i == hund ? pickv("t", {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}) : 0; s += I(k); v.push_back(k); } else { std::vector<int> o; for (int k = 0; k < np; k++) o.push_back(k); int k = pickv(S("t%d", i), o); s += T[k]; v.push_back(X[k]); } }
  auto a = base(lmax, R); bool ran = false, rej = false, bad = n != nl && (R || n != 2 * nl); if (!R && n == nl) for (double x : v) if (x != std::floor(x)) bad = true;
  solve = [&](const Opt &o) -> Res { ran = true; std::vector<double> A, B;
    if (R) A = v; else if (n == 2 * nl) { A.assign(v.begin(), v.begin() + nl); B.assign(v.begin() + nl, v.end()); } else for (int l = 0; l < nl; l++) { int cap = 2 * l + 1, t = v[l], full = t / (2 * cap), rem = t % (2 * cap); A.push_back(full * cap + std::min(rem, cap)); B.push_back(t - A.back()); }
    sym_assert(o.fixed_per_l_a.size() == (long)A.size() && o.fixed_per_l_b.size() == (long)B.size(), "occupations for every angular momentum"); if (o.fixed_per_l_a.size() == (long)A.size()) for (size_t l = 0; l < A.size(); l++) sym_assert(o.fixed_per_l_a(l) == A[l], "occupation"); if (o.fixed_per_l_b.size() == (long)B.size()) for (size_t l = 0; l < B.size(); l++) sym_assert(o.fixed_per_l_b(l) == B[l], "occupation, beta"); throw 1; };
  a.push_back("--occs=" + s); try { go(a); } catch (int) {} catch (const std::logic_error &) { rej = true; }
  sym_assert(rej == bad && ran == !bad, "occupations are refused exactly when they cannot be assigned");
}
// a state with symbolic densities and orbitals
static Res state(const Opt &o, bool R, bool symP, bool symC) {
  Res r; r.basis = sadatom::basis::TwoDBasis(o.Z, o.finitenuc, o.Rrms, o.poly, false, o.Nquad, o.bval, o.lmax); int N = r.basis.Nbf(), nl = o.lmax + 1; r.Prad = MatD::Zero(N, N); int q = 0;
  for (int t = 0; t < (R ? 1 : 2); t++) for (int l = 0; l < nl; l++) { MatD P(N, N); double s = symP ? sym_real(S("p%d%d", t, l), 0.1, 1, 0.5 + 0.1 * t - 0.2 * l) : 0.5; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) P(i, j) = s * (i == j ? 1.0 : 0.1 * ((i + j + t + l) % 3)); (t ? r.Pl_b : r.Pl_a).push_back(P); r.Prad += P;
    MatD C(N, N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) C(i, j) = symC && j < 3 && (i + j) % 2 == 0 ? sym_real(S("c%d", q++), -1, 1, 0.2 + 0.1 * i - 0.15 * j + 0.05 * t) : 0.3 - 0.1 * ((i + 2 * j) % 4) + 0.05 * t; (t ? r.orbs_b : r.orbs_a).push_back(C); }
  return r;
}
static void t_table() {
  bool R = cfg("restr", 0); int lmax = cfg("lmax", 1), xid = cfg("x", 1), cid = cfg("c", 6), so = cfg("orb", 0); double tol = 1e-8; xc_setup(); auto a = base(lmax, R); std::string pot = cid ? I(xid) + "-" + I(cid) : I(xid);
  int flags = pickv("flags", {0, 1, 2, 3}); bool none = cfg("none", 0); a.push_back("--pot=" + (none ? std::string("none") : pot)); if (flags & 1) a.push_back("--savepot=1"); if (flags & 2) a.push_back("--saveing=1"); if (so) a.push_back("--saveorb=1");
  Res st; solve = [&](const Opt &o) { st = state(o, R, true, so); return st; }; files.clear(); int rc = go(a); sym_assert(rc == 0, "exit status");
  std::vector<std::string> want; if (!none) { want.push_back("result_B.dat"); if (flags & 1) want.push_back("xcpot.dat"); if (flags & 2) want.push_back("xcing.dat"); } if (so) for (int l = 0; l <= lmax; l++) { if (R) want.push_back("orbs_B_r_l" + I(l) + ".dat"); else { want.push_back("orbs_B_a_l" + I(l) + ".dat"); want.push_back("orbs_B_b_l" + I(l) + ".dat"); } }
  sym_assert(files.size() == want.size(), "files written"); for (auto &w : want) { sym_assert(files.count(w) == 1, w + " is written"); if (!files.count(w)) return; }
  auto &B = st.basis; VecD r = B.radii(), w = B.quadrature_weights(); int n = r.size();
  if (!none) {
    int N = B.Nbf(); MatD Pa = MatD::Zero(N, N), Pb = Pa; Cube Pl; for (int l = 0; l <= lmax; l++) { Pa += st.Pl_a[l]; MatD t = st.Pl_a[l]; if (!R) { Pb += st.Pl_b[l]; t += st.Pl_b[l]; } Pl.push_back(t); } MatD P = Pa + Pb;
    VecD vc = B.coulomb_screening(P), vx(n); if (R) vx = B.xc_screening(P, xid, cid); else { MatD v = B.xc_screening(Pa, Pb, xid, cid); for (int i = 0; i < n; i++) vx(i) = 0.5 * (v(i, 0) + v(i, 1)); }
    VecD rho = B.electron_density(P), g = B.electron_density_gradient(P), l = B.electron_density_laplacian(P), tau = B.kinetic_energy_density(Pl);
    const MatD &T = files["result_B.dat"]; sym_assert(T.rows() == n && T.cols() == 9, "table shape"); if (T.rows() != n || T.cols() != 9) return; const char *nm[] = {"radius", "density", "gradient", "Laplacian", "kinetic energy density", "Coulomb screening", "exchange-correlation screening", "weight", "effective charge"};
    for (int i = 0; i < n; i++) { double e[9] = {r(i), rho(i), g(i), l(i), tau(i), vc(i), vx(i), w(i), Z - vc(i) - vx(i)}; for (int k = 0; k < 9; k++) sym_near(T(i, k), e[k], tol, nm[k]); }
    if (flags & 1) { const MatD &q = files["xcpot.dat"]; bool ok = q.rows() == n && q.cols() == 2; sym_assert(ok, "potential table shape"); if (ok) for (int i = 0; i < n; i++) { sym_near(q(i, 0), r(i), tol, "radius"); sym_near(q(i, 1), vx(i), tol, "saved potential"); } }
    if (flags & 2) { const MatD &q = files["xcing.dat"]; bool ok = q.rows() == n && q.cols() == 5; sym_assert(ok, "ingredient table shape"); if (ok) for (int i = 0; i < n; i++) { double e[5] = {r(i), rho(i), g(i), l(i), tau(i)}; for (int k = 0; k < 5; k++) sym_near(q(i, k), e[k], tol, nm[k]); } }
  }
  if (so) for (int t = 0; t < (R ? 1 : 2); t++) for (int l = 0; l <= lmax; l++) { const MatD &q = files[std::string("orbs_B_") + (R ? "r" : t ? "b" : "a") + "_l" + I(l) + ".dat"]; const MatD &C = t ? st.orbs_b[l] : st.orbs_a[l]; bool ok = q.rows() == n && q.cols() == C.cols() + 1; sym_assert(ok, "orbital table shape"); if (!ok) return;
    int row = 0; for (size_t e = 0; e < B.get_rad_Nel(); e++) { MatD f = B.eval_bf(e); auto ix = B.bf_list(e); VecD re = B.get_r(e); for (int i = 0; i < re.size(); i++, row++) { int k = row + (n - 0 > 0 && r(0) == 0); if (k >= n) break; sym_near(q(k, 0), r(k), tol, "radius"); if (std::fabs(r(k) - re(i)) > 1e-12) { sym_assert(false, "radial grid"); return; } for (int j = 0; j < C.cols(); j++) { double v = 0; for (size_t m = 0; m < ix.size(); m++) v += f(i, m) * C(ix[m], j); sym_near(q(k, j + 1), v, tol, "orbital value"); } } } }
}
// potentials that the spherical program does not have are refused
static void t_refuse() {
  xc_setup(); int id = pickv("id", {1, 2, 3, 4, 5, 9, 10, 11, 12}); bool hyb = id >= 9, rs = id == 10 || id == 11; xcs::hyb_a = sym_real("alpha", -1, 1, 0.3); xcs::hyb_b = sym_real("beta", -1, 1, 0.4); xcs::hyb_w = rs ? 0.6 : 0;
  bool bad = xcs::tau(id) || xcs::lapl(id) || (hyb && (xcs::hyb_a != 0 || rs)); auto a = base(0, 1); a.push_back("--pot=" + I(id)); files.clear(); solve = [&](const Opt &o) { return state(o, true, false, false); }; bool rej = false; try { go(a); } catch (const std::logic_error &) { rej = true; }
  sym_assert(rej == bad, "potential refused exactly when it is not available"); sym_assert(files.count("result_B.dat") == (bad ? 0 : 1), "table");
}
static void t_prof() {
  bool R = cfg("restr", 0); int lmax = 1; auto a = base(lmax, R); a.push_back("--completeness=1"); int o0 = R ? pickv("n0", {0, 1, 2, 3, 4, 5}) : pickv("n0", {0, 1, 2, 3}), o1 = R ? pickv("n1", {0, 1, 6, 7, 12}) : pickv("n1", {0, 1, 3, 4, 6});
  Res st; solve = [&](const Opt &o) { st = state(o, R, false, true); st.occs_a = Eigen::VectorXi(2); st.occs_a << o0, o1; if (!R) st.occs_b = Eigen::VectorXi::Zero(2); return st; }; files.clear(); go(a); sym_assert(files.size() == 4, "four profiles"); auto &B = st.basis; int N = B.Nbf(); MatD S = B.overlap(), Si = S.inverse(); int cap0 = R ? 2 : 1, cap1 = R ? 6 : 3, no[2] = {(o0 + cap0 - 1) / cap0, (o1 + cap1 - 1) / cap1};
  for (int gto = 0; gto < 2; gto++) { std::string b = gto ? "B_gto_" : "B_sto_"; if (!files.count(b + "completeness.dat") || !files.count(b + "importance.dat")) { sym_assert(false, "profile written"); return; } const MatD &Y = files[b + "completeness.dat"], &M = files[b + "importance.dat"]; bool ok = Y.rows() == 501 && M.rows() == 501 && Y.cols() == 3 && M.cols() == 3; sym_assert(ok, "profile shape"); if (!ok) return;
    for (int k = 0; k < 501; k += 3) { double x = std::pow(10.0, -5 + 15.0 * k / 500); sym_near(Y(k, 0) / x, 1, 1e-9, "exponent"); sym_near(M(k, 0) / x, 1, 1e-9, "exponent"); if (k < 120 || k > 270 || k % (cfg("step", 5) * 3)) continue;
      for (int l = 0; l < 2; l++) { VecD p = VecD::Zero(N); double df = l ? 3 : 1, f2l2 = l ? 24 : 2;
        for (size_t e = 0; e < B.get_rad_Nel(); e++) { VecD r = B.get_r(e), w = B.get_wrad(e); MatD f = B.eval_bf(e); auto ix = B.bf_list(e); for (int i = 0; i < r.size(); i++) { double ao = gto ? std::pow(2, l + 2) * std::pow(x, (2 * l + 3) / 4.0) / (std::pow(2 * M_PI, 0.25) * std::sqrt(df)) * std::pow(r(i), l) * std::exp(-x * r(i) * r(i)) : std::pow(2 * x, l + 1.5) / std::sqrt(f2l2) * std::pow(r(i), l) * std::exp(-x * r(i)); for (size_t m = 0; m < ix.size(); m++) p(ix[m]) += w(i) * r(i) * r(i) * ao * f(i, m); } }
        sym_near(Y(k, l + 1) * Y(k, l + 1), p.dot(Si * p), 1e-8, "completeness");
        double s = 0; for (int j = 0; j < no[l]; j++) { double v = 0; for (int m = 0; m < N; m++) v += p(m) * st.orbs_a[l](m, j); s += v * v; } sym_near(M(k, l + 1) * M(k, l + 1), s, 1e-8, "importance"); } } }
}
void sym_main() { std::string w = cfgs("what", "opts"); if (w == "opts") t_opts(); if (w == "occs") t_occs(); if (w == "table") t_table(); if (w == "prof") t_prof(); if (w == "refuse") t_refuse(); }
