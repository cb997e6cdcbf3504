// Bookkeeping: electron counts, block metadata, functional classification, names, generalised eigenproblem.
#include "sym.h"
#include "hutil.h"
#include <cstring>
#include <cstdlib>
#include <stdexcept>
#include <vector>
#include <algorithm>
#include <Matrix.h>
#include "scf_driver_common.h"
#include "scf_helpers.h"
#include "dftfuncs.h"
#include "elements.h"
#include "lcao.h"
#include <utils.h>
extern "C" {
#include <xc.h>
}
using helfem::Matrix; using helfem::Vector;
static const double TOL = 1e-9;

// libxc stand-in whose declared family, kind, flags and mixing constants are inputs
static xc_func_info_type INFO[8];
static struct { int family, kind, flags; } D[8];
static double AL, BE, OM, VB, VC; static int inits = 0, ends = 0;
extern "C" {
int xc_func_init(xc_func_type *p, int id, int nspin) {
  if (id < 1 || id > 5) return -1;
  memset(p, 0, sizeof *p); memset(&INFO[id], 0, sizeof INFO[0]);
  const_cast<int &>(INFO[id].number) = id; const_cast<int &>(INFO[id].family) = D[id].family; const_cast<int &>(INFO[id].kind) = D[id].kind; const_cast<int &>(INFO[id].flags) = D[id].flags;
  p->info = &INFO[id]; p->nspin = nspin; inits++; return 0;
}
void xc_func_end(xc_func_type *) { ends++; }
double xc_hyb_exx_coef(const xc_func_type *) { return AL; }
void xc_hyb_cam_coef(const xc_func_type *, double *w, double *a, double *b) { *w = OM; *a = AL; *b = BE; }
void xc_nlc_coef(const xc_func_type *, double *b, double *c) { *b = VB; *c = VC; }
static const char *NAMES[] = {"", "lda_x", "gga_c_pbe", "hyb_gga_xc_b3lyp", "mgga_x_scan", "lda_k_tf"};
int xc_functional_get_number(const char *n) { for (int i = 1; i <= 5; i++) if (!strcasecmp(n, NAMES[i])) return i; return -1; }
char *xc_functional_get_name(int id) { return id >= 1 && id <= 5 ? strdup(NAMES[id]) : nullptr; }
}
static int pick(const std::string &n, const std::vector<int> &v) { int i = sym_int(n, 0, (int)v.size() - 1, 0); for (size_t k = 0; k < v.size(); k++) if (i == (int)k) return v[k]; return v[0]; }
template <class F> static bool throws(F f) { try { f(); } catch (std::exception &) { return true; } return false; }

static const std::vector<int> FAM = {XC_FAMILY_LDA, XC_FAMILY_GGA, XC_FAMILY_MGGA, XC_FAMILY_HYB_LDA, XC_FAMILY_HYB_GGA, XC_FAMILY_HYB_MGGA};
static bool hyb(int f) { return f == XC_FAMILY_HYB_LDA || f == XC_FAMILY_HYB_GGA || f == XC_FAMILY_HYB_MGGA; }
static bool mgga(int f) { return f == XC_FAMILY_MGGA || f == XC_FAMILY_HYB_MGGA; }
static bool ggaf(int f) { return f == XC_FAMILY_GGA || f == XC_FAMILY_HYB_GGA; }

static void t_class() {
  int f = pick("family", FAM); bool t = pick("tau", {0, 1}), l = pick("lapl", {0, 1}), e = pick("exc", {0, 1});
  D[1] = {f, XC_EXCHANGE, XC_FLAGS_HAVE_VXC | (t ? XC_FLAGS_NEEDS_TAU : 0) | (l ? XC_FLAGS_NEEDS_LAPLACIAN : 0) | (e ? XC_FLAGS_HAVE_EXC : 0)};
  sym_assert(gradient_needed(1) == (ggaf(f) || mgga(f)), "gradient");
  sym_assert(tau_needed(1) == (mgga(f) && t), "tau");
  sym_assert(laplacian_needed(1) == (mgga(f) && l), "laplacian");
  bool g = true, mt = true, ml = true; is_gga_mgga(1, g, mt, ml);
  sym_assert(g == ggaf(f) && mt == (mgga(f) && t) && ml == (mgga(f) && l), "class");
  sym_assert(has_exc(1) == e, "has energy");
  for (int none : {0, -1}) {
    is_gga_mgga(none, g, mt, ml);
    sym_assert(!gradient_needed(none) && !tau_needed(none) && !laplacian_needed(none) && !g && !mt && !ml && has_exc(none), "no functional");
  }
  sym_assert(throws([] { gradient_needed(77); }) && throws([] { tau_needed(77); }) && throws([] { laplacian_needed(77); }) && throws([] { bool a, b, c; is_gga_mgga(77, a, b, c); }) && throws([] { has_exc(77); }), "unknown id");
}
static void t_kind() {
  int k = pick("kind", {XC_EXCHANGE, XC_CORRELATION, XC_EXCHANGE_CORRELATION, XC_KINETIC}); int f = pick("family", FAM);
  D[1] = {f, k, 0};
  sym_assert(is_exchange(1) == (k == XC_EXCHANGE || k == XC_EXCHANGE_CORRELATION), "exchange");
  sym_assert(is_correlation(1) == (k == XC_CORRELATION), "correlation");
  sym_assert(is_exchange_correlation(1) == (k == XC_EXCHANGE_CORRELATION), "xc");
  sym_assert(is_kinetic(1) == (k == XC_KINETIC), "kinetic");
  sym_assert(is_exchange(-1) && !is_correlation(-1) && !is_kinetic(-1) && !is_exchange_correlation(-1), "HF kind");
  sym_assert(!is_exchange(0) && !is_correlation(0) && !is_kinetic(0) && !is_exchange_correlation(0), "none kind");
}
static void t_range() {
  int f = pick("family", FAM); int r = hyb(f) ? pick("range", {0, XC_FLAGS_HYB_CAM, XC_FLAGS_HYB_LC, XC_FLAGS_HYB_CAMY, XC_FLAGS_HYB_LCY}) : 0; bool vv = pick("vv10", {0, 1});
  AL = sym_real("alpha", -1, 1, 0.3); BE = sym_real("beta", -1, 1, 0.4); OM = sym_real("omega", 0.01, 2, 0.7); VB = sym_real("vb", 0.1, 9, 5.9); VC = sym_real("vc", 0.001, 1, 0.01);
  D[1] = {f, XC_EXCHANGE, r | (vv ? XC_FLAGS_VV10 : 0)};
  bool erf_ = r == XC_FLAGS_HYB_CAM || r == XC_FLAGS_HYB_LC, yuk = r == XC_FLAGS_HYB_CAMY || r == XC_FLAGS_HYB_LCY;
  for (int chk = 0; chk < 2; chk++) {
    bool e = !erf_, y = !yuk; is_range_separated(1, e, y, chk); sym_assert(e == erf_ && y == yuk, "range kind");
    sym_assert(is_range_separated(1, (bool)chk) == (erf_ || yuk), "range separated");
    double w = -3, a = -3, b = -3; range_separation(1, w, a, b, chk);
    sym_near(w, r ? OM : 0, TOL, "omega"); sym_near(a, hyb(f) ? AL : 0, TOL, "alpha"); sym_near(b, r ? BE : 0, TOL, "beta");
    range_separation(-1, w, a, b, chk); sym_assert(w == 0 && a == 1 && b == 0, "HF mixing");
    range_separation(0, w, a, b, chk); sym_assert(w == 0 && a == 0 && b == 0, "no mixing");
    for (int id : {0, -1}) { e = y = true; is_range_separated(id, e, y, chk); sym_assert(!e && !y, "HF range"); }
  }
  sym_near(exact_exchange(1), hyb(f) ? AL : 0, TOL, "exact exchange"); sym_assert(exact_exchange(-1) == 1 && exact_exchange(0) == 0, "exact exchange HF");
  double b = -3, c = -3; bool n = needs_VV10(1, b, c); sym_assert(n == vv, "vv10"); sym_near(b, vv ? VB : 0, TOL, "vv10 b"); sym_near(c, vv ? VC : 0, TOL, "vv10 C");
  sym_assert(is_supported(1) && is_supported(-1) && is_supported(0), "supported");
}
static void t_parse() {
  for (int i = 1; i <= 5; i++) D[i] = {XC_FAMILY_LDA, XC_EXCHANGE, 0};
  D[5].kind = XC_KINETIC; D[2].kind = XC_CORRELATION;
  static const std::vector<std::pair<std::string, int>> N = {{"lda_x", 1}, {"LDA_X", 1}, {"gga_c_pbe", 2}, {"3", 3}, {"mgga_x_scan", 4}, {"lda_k_tf", 5}, {"5", 5}, {"none", 0}, {"NONE", 0}, {"HF", -1}, {"hyb_x_hf", -1}, {"foo", 99}, {"0", 0}};
  std::vector<int> all; for (size_t i = 0; i < N.size(); i++) all.push_back(i);
  bool dash = pick("dash", {0, 1}); auto x = N[pick("x", all)]; auto c = dash ? N[pick("c", all)] : N[7];
  int xf = -7, cf = -7; bool bad = x.second == 5 || c.second == 5 || x.second == 99 || c.second == 99;
  bool t = throws([&] { parse_xc_func(xf, cf, dash ? x.first + "-" + c.first : x.first); });
  sym_assert(t == bad, "refuses");
  if (!bad) sym_assert(xf == x.second && cf == c.second, "ids");
}
static const char *EL = " H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og ";
static void t_getz() {
  int lo = cfg("lo", 1), hi = cfg("hi", 118); std::vector<int> zs; for (int z = lo; z <= hi; z++) zs.push_back(z);
  int Z = pick("Z", zs), style = pick("style", {0, 1, 2, 3});
  const char *p = EL; for (int i = 1; i < Z; i++) p = strchr(p + 1, ' '); std::string s(p + 1, strchr(p + 1, ' '));
  if (style == 1) for (auto &c : s) c = toupper(c);
  if (style == 2) for (auto &c : s) c = tolower(c);
  if (style == 3) s = std::to_string(Z);
  sym_assert(get_Z(s) == Z, "Z of " + s);
  sym_assert(get_Z("") == 0 && get_Z("-") == 0 && get_Z("0") == 0, "no nucleus"); sym_assert(throws([] { get_Z("Xx"); }) && throws([] { get_Z("Hx"); }), "unknown element");
}
static void t_elec() {
  int Q = sym_int("Q", -3, 6, 0), M = sym_int("M", 0, 5, 1), Z = sym_int("Z", 0, 5, 2), r0 = sym_int("restr", -1, 1, -1);
  int na = cfg("explicit", 0) ? sym_int("nela", 0, 4, 1) : 0, nb = cfg("explicit", 0) ? sym_int("nelb", 0, 4, 0) : 0;
  int ga = na, gb = nb, gr = r0, N = -99; bool rs = false;
  bool t = throws([&] { helfem::scf_driver::derive_nela_nelb_restricted(ga, gb, gr, Q, M, Z, rs, N); });
  bool bad; int ea = na, eb = nb;
  if (na == 0 && nb == 0) {
    int n = Z - Q;
    if (M == 0) { bad = r0 == 0 || n <= 0; if (!bad) { sym_assert(ga + gb == n && ga - gb >= 0 && ga - gb <= 1, "even split"); ea = ga; eb = gb; if (!t) sym_assert(rs, "restricted without multiplicity"); } }
    else {
      // 2S = M-1 unpaired electrons out of n
      bad = n < 0 || M - 1 > n || (n - (M - 1)) % 2 != 0;
      if (!bad && !t) { sym_assert(ga - gb == M - 1 && ga + gb == n, "multiplicity and charge"); ea = ga; eb = gb; }
    }
  } else bad = nb > na;
  sym_assert(t == bad, "inconsistent input is refused");
  if (!t) {
    sym_assert(ga == ea && gb == eb && N == ea + eb, "counts");
    if (!(M == 0 && na == 0 && nb == 0)) sym_assert(rs == (r0 == -1 ? ea == eb : r0 == 1), "restriction");
    sym_assert((gr != 0) == rs, "restriction flag");
  }
}
static void t_meta() {
  int nsym = cfg("nsym", 3), npt = cfg("npt", 2); bool rs = npt == 1;
  int na = sym_int("na", 0, 9, 4), nb = sym_int("nb", 0, 9, 3); std::vector<int> deg; std::vector<std::string> lab;
  for (int k = 0; k < nsym; k++) { deg.push_back(sym_int("deg" + std::to_string(k), 1, 9, 1 + k % 2)); lab.push_back("s" + std::to_string(k)); }
  OpenOrbitalOptimizer::IndexVector nblk; Vector mo, np; std::vector<std::string> desc;
  helfem::scf_driver::build_ooo_block_metadata<double>(nsym, npt, rs, na + nb, na, nb, lab, deg, nblk, mo, np, desc);
  sym_assert((int)nblk.size() == npt && (int)mo.size() == nsym * npt && (int)np.size() == npt && (int)desc.size() == nsym * npt, "sizes");
  for (int t = 0; t < npt; t++) {
    sym_assert((int)nblk(t) == nsym, "blocks"); sym_near(np(t), rs ? na + nb : t == 0 ? na : nb, TOL, "particles");
    for (int k = 0; k < nsym; k++) { sym_near(mo(t * nsym + k), (rs ? 2 : 1) * deg[k], TOL, "maximum occupation"); sym_assert(desc[t * nsym + k].find(lab[k]) != std::string::npos, "label"); }
  }
  auto d2 = deg; d2.pop_back(); auto l2 = lab; l2.pop_back();
  sym_assert(throws([&] { helfem::scf_driver::build_ooo_block_metadata<double>(nsym, npt, rs, na + nb, na, nb, lab, d2, nblk, mo, np, desc); }), "degeneracy count");
  sym_assert(throws([&] { helfem::scf_driver::build_ooo_block_metadata<double>(nsym, npt, rs, na + nb, na, nb, l2, deg, nblk, mo, np, desc); }), "label count");
}
// generalised eigenproblem: overlap S = d (S0) d with arbitrary normalisations d, Fock blocks with arbitrary scale
static const double S0[4][4] = {{1, .3, -.2, .1}, {.3, 1.4, .25, -.15}, {-.2, .25, .8, .2}, {.1, -.15, .2, 1.1}};
static const double F0[4][4] = {{-1.3, .4, .7, .2}, {.4, .6, -.5, .3}, {.7, -.5, -2.2, .1}, {.2, .3, .1, .9}};
static void t_invh() {
  int n = cfg("n", 3); bool chol = cfg("chol", 0); double u = std::pow(10.0, cfg("dsc", 0)); Vector d(n); for (int i = 0; i < n; i++) d(i) = u * sym_real("d" + std::to_string(i), 0.2, 5, 0.7 + 0.5 * i);
  Matrix S(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) S(i, j) = d(i) * S0[i][j] * d(j);
  Matrix X = helfem::scf::form_Sinvh(S, chol);
  sym_assert(X.rows() == n && X.cols() == n, "square"); if (X.rows() != n || X.cols() != n) return;
  Matrix O = X.transpose() * S * X; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sym_near(O(i, j), i == j, 1e-8, "orthonormal");
}
static void t_eig() {
  // blocks of the given sizes, interleaved over the basis functions
  int n1 = cfg("n1", 2), n2 = cfg("n2", 1), n3 = cfg("n3", 1), n = n1 + n2 + n3, sub = cfg("sub", 1); std::vector<int> bl; 
  { int c[3] = {n1, n2, n3}; for (int k = 0; (int)bl.size() < n; k = (k + 1) % 3) if (c[k] > 0) { c[k]--; bl.push_back(k); } }
  if (!sub) std::fill(bl.begin(), bl.end(), 0);
  double s[3] = {sym_real("f0", 0.1, 3, 0.9), sub ? sym_real("f1", -3, 3, 0.4) : 1, sub ? sym_real("f2", -3, 3, -0.7) : 1};
  double u = std::pow(10.0, cfg("dsc", 0)); Vector d(n); for (int i = 0; i < n; i++) d(i) = u * sym_real("d" + std::to_string(i), 0.2, 5, 0.7 + 0.5 * i);
  Matrix S = Matrix::Zero(n, n), F = Matrix::Zero(n, n), X = Matrix::Zero(n, n); std::vector<std::vector<Eigen::Index>> idx(3);
  for (int i = 0; i < n; i++) idx[bl[i]].push_back(i);
  if (!n3 || !sub) idx.resize(sub ? 2 : 1);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (bl[i] == bl[j]) { S(i, j) = d(i) * S0[i][j] * d(j); F(i, j) = s[bl[i]] * d(i) * F0[i][j] * d(j); }
  for (auto &b : idx) { Matrix Sb = S(b, b); Matrix Xb = helfem::scf::form_Sinvh(Sb, cfg("chol", 0)); X(b, b) = Xb; }
  Vector E; Matrix C;
  if (sub) helfem::scf::eig_gsym_sub(E, C, F, X, idx); else helfem::scf::eig_gsym(E, C, F, X);
  sym_assert((int)E.size() == n && (int)C.rows() == n && (int)C.cols() == n, "shape");
  for (int i = 0; i + 1 < n; i++) sym_le(E(i), E(i + 1), 1e-9, "ascending");
  Matrix R = F * C, SC = S * C, O = C.transpose() * SC;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { sym_near(O(i, j), i == j, 1e-8, "orthonormal"); sym_near(R(i, j), SC(i, j) * E(j), 1e-7 * u, "eigenvector"); }
  // symmetry: every orbital lives in one block
  if (sub) for (int j = 0; j < n; j++) { int hit = 0; for (auto &b : idx) { double w = 0; for (auto i : b) w += C(i, j) * SC(i, j); if (w > 0.5) hit++; else sym_near(w, 0, 1e-8, "pure symmetry"); } sym_assert(hit == 1, "one block"); }
  // every block contributes as many orbitals as it has functions
  if (sub) for (auto &b : idx) { double w = 0; for (int j = 0; j < n; j++) for (auto i : b) w += C(i, j) * SC(i, j); sym_near(w, b.size(), 1e-8, "orbitals per block"); }
  if (sub) { auto bad = idx; bad.pop_back(); sym_assert(throws([&] { helfem::scf::eig_gsym_sub(E, C, F, X, bad); }), "incomplete symmetry"); }
}
// analytic radial functions: normalisation by the gamma-function integrals, shape against the definition
static void t_lcao() {
  int l = cfg("l", 0); double a = sym_real("a", 0.05, 50, 1.3), r = sym_real("r", 0.01, 8, 0.9);
  double g = helfem::lcao::radial_GTO(r, l, a), s = helfem::lcao::radial_STO(r, l, a);
  double rl = 1; for (int i = 0; i < l; i++) rl *= r;
  // squared, so that the reference needs no fractional powers: N^2 with int N^2 r^(2l+2) e^(-2 a r^2) = 1
  double df = 1, fa = 1; for (int k = 3; k <= 2 * l + 1; k += 2) df *= k; for (int k = 2; k <= 2 * l + 2; k++) fa *= k;
  double al = a; for (int i = 0; i < l; i++) al *= a; double p2 = 1; for (int i = 0; i < 2 * l + 3; i++) p2 *= 2;
  double Ng = p2 * std::sqrt(2 / M_PI) / df;                     // times a^(l+3/2)
  double eg = std::exp(-a * r * r), es = std::exp(-a * r);
  sym_near(g * g / (Ng * al * std::sqrt(a) * rl * rl), eg * eg, 1e-7, "gaussian"); sym_le(0, g, 0, "gaussian sign");
  double Ns = p2 / fa; // times a^(2l+3)
  sym_near(s * s / (Ns * al * al * a * rl * rl), es * es, 1e-7, "slater"); sym_le(0, s, 0, "slater sign");
  Vector rv(2), av(3); rv << r, 0.5; av << a, 2.0, 0.3; Matrix G = helfem::lcao::radial_GTO(rv, l, av), T = helfem::lcao::radial_STO(rv, l, av);
  sym_assert(G.rows() == 2 && G.cols() == 3 && T.rows() == 2 && T.cols() == 3, "table shape");
  for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) { sym_near(G(i, j), helfem::lcao::radial_GTO(rv(i), l, av(j)), TOL, "gaussian table"); sym_near(T(i, j), helfem::lcao::radial_STO(rv(i), l, av(j)), TOL, "slater table"); }
}
// orbitals by |m| of the occupied shells of both atoms: shells fill in order of n+l, then n; the electron number where each opens follows from their sizes
static void t_orbs() {
  int lo = cfg("lo", 0), hi = cfg("hi", 118), Z[2] = {sym_int("Z1", lo, hi, lo), sym_int("Z2", 0, 118, 26)}, n[4] = {0, 0, 0, 0}, g[4] = {-7, 5, 1, 2};
  std::vector<std::pair<int, int>> sh; int open = 1; for (int nl = 1; nl <= 8; nl++) for (int l = (nl - 1) / 2; l >= 0; l--) { sh.push_back({open, l}); open += 4 * l + 2; }
  for (int a = 0; a < 2; a++) for (auto &s : sh) for (int m = 0; m <= s.second; m++) if (s.first <= 118) n[m] = n[m] + (Z[a] >= s.first ? 1 : 0);
  num_orbs(Z[0], Z[1], g[0], g[1], g[2], g[3]);
  for (int m = 0; m < 4; m++) sym_assert(g[m] == n[m], S("number of orbitals with |m|=%d", m));
}
void sym_main() {
  std::string w = cfgs("what", "elec"); if (w == "orbs") t_orbs();
  if (w == "class") t_class(); if (w == "kind") t_kind(); if (w == "range") t_range(); if (w == "parse") t_parse(); if (w == "getz") t_getz();
  if (w == "elec") t_elec(); if (w == "meta") t_meta(); if (w == "invh") t_invh(); if (w == "eig") t_eig(); if (w == "lcao") t_lcao();
}
