// One-electron and model-problem programs, and the automatic choice of a basis: the eigenproblem each of them solves.
// Diagonalisations are replaced by stand-ins that record the problem and return symbolic solutions.
#include "h_scf.h"
#include "h_ang.h"
#include "atomic/basis.h"
#include "diatomic/basis.h"
#include "diatomic/twodquadrature.h"
#include "sadatom/basis.h"
#include "sadatom/dftgrid.h"
#include "general/elements.h"
#include "general/constants.h"
#include "general/timer.h"
#include "general/model_potential.h"
#include "general/scf_helpers.h"
#include "FiniteElementBasis.h"
#include "PolynomialBasis.h"
#include "general/eigen_io.h"
#include "general/dftfuncs.h"
#include "general/checkpoint.h"
#include "diatomic/dftgrid.h"
#include "utils.h"
#include "Matrix.h"
#include <helfem.h>
#include "chebyshev.h"
#include <Eigen/Eigenvalues>
#include <cfloat>
#include <climits>
#include <cstdarg>
#include <map>
#include <sstream>
using namespace helfem;
typedef polynomial_basis::FiniteElementBasis FE; typedef diatomic::basis::TwoDBasis TB;
// recorded eigenproblems; answer() supplies the solutions
struct Prob { MatD A, X; std::vector<std::vector<Eigen::Index>> idx; };
static std::vector<Prob> probs; static std::function<void(const Prob &, VecD &, MatD &)> answer; static std::function<int(const std::string &)> getZ;
namespace Eigen { template <class M> struct HarnessEig { VecD E; MatD C; HarnessEig(const MatD &A) { if (::answer) { Prob p; p.A = A; ::answer(p, E, C); probs.push_back(p); } } const VecD &eigenvalues() const { return E; } const MatD &eigenvectors() const { return C; } }; }
namespace scfx = helfem::scf;
namespace helfem { namespace scf {
inline void harness_gsym(VecD &E, MatD &C, const MatD &F, const MatD &X) { Prob p; p.A = F; p.X = X; ::answer(p, E, C); ::probs.push_back(p); }
inline void harness_gsub(VecD &E, MatD &C, const MatD &F, const MatD &X, const std::vector<std::vector<Eigen::Index>> &i) { Prob p; p.A = F; p.X = X; p.idx = i; ::answer(p, E, C); ::probs.push_back(p); }
} }
static std::vector<std::pair<std::string, std::vector<double>>> prints;
template <class T> static void rec1(std::vector<double> &v, const T &x) { if constexpr (std::is_arithmetic_v<T>) v.push_back(x); }
template <class... A> static void record(const char *f, const A &...a) { std::vector<double> v; (rec1(v, a), ...); prints.push_back({f, v}); }
static int harness_Z(const std::string &s) { return getZ ? getZ(s) : get_Z(s); }
#define cmdline hcmd
#define SelfAdjointEigenSolver HarnessEig
#define eig_gsym_sub harness_gsub
#define eig_gsym harness_gsym
#define get_Z(s) harness_Z(s)
#define printf(...) record(__VA_ARGS__)
#define main helfem_main
namespace atom1 {
#include "sadatom/1e.cpp"
}
namespace dia1 {
#include "diatomic/1e.cpp"
}
namespace morse {
#include "harmonic/morse.cpp"
}
namespace soft {
#include "harmonic/softcoulomb.cpp"
}
namespace core {
#include "diatomic/corebasis.cpp"
}
#undef cmdline
#undef SelfAdjointEigenSolver
#undef eig_gsym
#undef eig_gsym_sub
#undef get_Z
#undef printf
#undef main
static std::string I(int i) { return std::to_string(i); }
static MatD symC(int n, int k, const char *nm = "v") { MatD C(n, n); int q = 0; for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) C(i, j) = q < k && (i + j) % 2 == 0 ? sym_real(S((std::string(nm) + "%d").c_str(), q++), -1, 1, 0.3 - 0.1 * ((i + j) % 5)) : 0.25 - 0.1 * ((i + 3 * j) % 6); return C; }
static void near(const MatD &A, const MatD &B, double tol, const std::string &l) { sym_assert(A.rows() == B.rows() && A.cols() == B.cols(), l + ": shape"); if (A.rows() == B.rows() && A.cols() == B.cols()) for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) sym_near(A(i, j), B(i, j), tol, l); }
static void t_atom1() {
  int Z = 1 + 0 * 1, nel = cfg("nel", 2), nn = cfg("nnodes", 3), lmax = cfg("lmax", 2), g = cfg("grid", 1), fn = cfg("fn", 0); Z = sym_int("Z", 1, 100, 4); getZ = [&](const std::string &) { return Z; }; Scratch scr; std::string out = scr.file("a.chk"); probs.clear(); std::vector<MatD> Cs; std::vector<VecD> Es;
  answer = [&](const Prob &p, VecD &E, MatD &C) { int n = p.A.rows(), l = Es.size(); C = symC(n, 4, S("w%d_", l).c_str()); E = VecD(n); for (int i = 0; i < n; i++) E(i) = sym_real(S("e%d_%d", l, i), -9, 9, i); Cs.push_back(C); Es.push_back(E); };
  run_main(atom1::helfem_main, {"--Z=X", "--nelem=" + I(nel), "--nnodes=" + I(nn), "--lmax=" + I(lmax), "--grid=" + I(g), "--Rmax=6", "--save=" + out, "--primbas=" + I(cfg("primbas", 4))});
  std::shared_ptr<const polynomial_basis::PolynomialBasis> p(polynomial_basis::get_basis(cfg("primbas", 4), nn)); VecD bv = atomic::basis::form_grid((modelpotential::nuclear_model_t)fn, 0.0, nel, 6.0, g, 2.0, 0, g, 2.0, 4, 0, 0, 0.0); FE fe(p, bv, true, false, true, false); atomic::basis::FEMRadialBasis rb(fe, 5 * p->get_nbf()); MatD Sm = rb.overlap(), T = rb.kinetic(), Tl = rb.kinetic_l(), V = rb.nuclear(), X = scfx::form_Sinvh(Sm, false);
  sym_assert((int)probs.size() == lmax + 1, "one eigenproblem per angular momentum"); if ((int)probs.size() != lmax + 1) return; Checkpoint c(out, false); helfem::Vector r, w; c.read("r", r); c.read("wr", w); int np = rb.get_r(0).size(), nt = nel * np; sym_assert(r.size() == nt && w.size() == nt, "grid size"); if (r.size() != nt || w.size() != nt) return;
  for (int e = 0; e < nel; e++) for (int i = 0; i < np; i++) { sym_near(r(e * np + i), rb.get_r(e)(i), 1e-10, "radius"); sym_near(w(e * np + i), rb.get_wrad(e)(i), 1e-10, "weight"); }
  for (int l = 0; l <= lmax; l++) { near(probs[l].A, X.transpose() * (T + Z * V + l * (l + 1) * Tl) * X, 1e-7, "radial Hamiltonian"); helfem::Matrix O; helfem::Vector E; c.read("orbs_" + I(l), O); c.read("E_" + I(l), E); near(E, Es[l], 0, "orbital energies"); MatD C = X * Cs[l], R = MatD::Zero(nt, C.cols()); for (int e = 0; e < nel; e++) { size_t a, b; rb.get_idx(e, a, b); R.middleRows(e * np, np) = rb.get_bf(e) * C.middleRows(a, b - a + 1); } near(O, R, 1e-8, "orbitals on the grid"); }
}
static void t_dia1() {
  int nel = cfg("nel", 2), nn = cfg("nnodes", 3), ang = cfg("ang", 0), mode = cfg("mode", 0); int Z1 = sym_int("Z1", 0, 60, 3), Z2 = sym_int("Z2", 0, 60, 2); getZ = [&](const std::string &s) { return s == "A" ? Z1 : Z2; }; double Rb = 1.4; if (ang) Rb *= ANGSTROMINBOHR; Scratch scr; std::string out = scr.file("d.chk"); MatD Cm; VecD Ev; probs.clear();
  answer = [&](const Prob &p, VecD &E, MatD &C) { int n = p.X.cols(); Cm = C = symC(n, 6); Ev = VecD(n); for (int i = 0; i < n; i++) Ev(i) = -1 + 0.3 * i; E = Ev; };
  std::vector<std::string> a = {"--Z1=A", "--Z2=B", "--Rbond=1.4", "--nelem=" + I(nel), "--nnodes=" + I(nn), "--grid=1", "--Rmax=6", "--save=" + out, "--angstrom=" + I(ang)}; Eigen::VectorXi lm; if (mode == 0) { a.push_back("--lmax=2,1"); lm.resize(2); lm << 2, 1; } else { a.push_back("--lmax=1"); a.push_back("--mmax=1"); lm.resize(2); lm << 1, 1; } if (cfg("nq", 0)) a.push_back("--nquad=" + I(cfg("nq", 0)));
  std::shared_ptr<const polynomial_basis::PolynomialBasis> p(polynomial_basis::get_basis(4, nn)); bool few = cfg("nq", 0) && cfg("nq", 0) < 2 * p->get_nbf(), rej = false; try { run_main(dia1::helfem_main, a); } catch (const std::logic_error &) { rej = true; } sym_assert(rej == few, "too few quadrature points are refused"); if (rej) return;
  Eigen::VectorXi lv, mv; diatomic::basis::lm_to_l_m(lm, lv, mv); VecD bv = atomic::basis::normal_grid(nel, std::acosh(6 / (0.5 * Rb)), 1, 1.0); TB tb(Z1, Z2, 0.5 * Rb, p, cfg("nq", 0) ? cfg("nq", 0) : 5 * p->get_nbf(), bv, lv, mv, false); sym_assert(probs.size() == 1, "one eigenproblem"); if (probs.size() != 1) return; MatD Sm = tb.overlap(), T = tb.kinetic(), V = tb.nuclear();
  near(probs[0].A, T + V, 1e-7, "Hamiltonian"); MatD J = probs[0].X.transpose() * Sm * probs[0].X; near(J, MatD::Identity(J.rows(), J.cols()), 1e-8, "orthonormal basis"); Checkpoint c(out, false); TB sb; c.read(sb); sym_assert(sb.get_Z1() == Z1 && sb.get_Z2() == Z2 && sb.Nbf() == tb.Nbf() && sb.get_Rhalf() == 0.5 * Rb, "saved basis"); auto mt = [&](const char *n) { helfem::Matrix q; c.read(n, q); return MatD(q); }; near(mt("S"), Sm, 1e-9, "saved overlap"); near(mt("T"), T, 1e-7, "saved kinetic energy"); near(mt("Vnuc"), V, 1e-7, "saved nuclear attraction"); near(mt("H0"), T + V, 1e-7, "saved Hamiltonian"); near(mt("Ca"), Cm, 0, "saved orbitals"); near(mt("Cb"), Cm, 0, "saved orbitals"); near(mt("Sinvh"), probs[0].X, 0, "saved half-inverse overlap"); helfem::Vector e; c.read("Ea", e); near(e, Ev, 0, "saved energies"); int na, nb; c.read("nela", na); c.read("nelb", nb); sym_assert(na == 1 && nb == 0, "one electron");
  double ek, en, er, et, k = 0, n = 0; c.read("Ekin", ek); c.read("Enuc", en); c.read("Enucr", er); c.read("Etot", et); for (int i = 0; i < Cm.rows(); i++) for (int j = 0; j < Cm.rows(); j++) { if (T(i, j) != 0) k += T(i, j) * Cm(i, 0) * Cm(j, 0); n += V(i, j) * Cm(i, 0) * Cm(j, 0); } sym_near(ek, k, 1e-6, "kinetic energy"); sym_near(en, n, 1e-6, "nuclear attraction energy"); sym_near(er, Z1 * Z2 / Rb, 1e-8, "nuclear repulsion"); sym_near(et, k + n + Z1 * Z2 / Rb, 1e-6, "total energy");
}
// one-dimensional model problems: the two stages of diagonalisation, then the orbitals on the grid
static void t_model() {
  bool so = cfg("soft", 0); int nel = cfg("nel", 3), nn = cfg("nnodes", 4), pb = cfg("primbas", 4), deu = cfg("deu", 0), ab = cfg("abs", 0); Scratch scr; std::string out = scr.file("m.chk"); probs.clear(); MatD C2, U; VecD sv, E2; double De = 0, re = 0.9, a = 1.1, m = 1, R = 1.7, al = 0.6; int Z1 = 0, Z2 = 0;
  answer = [&](const Prob &p, VecD &E, MatD &C) { int n = p.A.rows(); if (probs.empty()) { Eigen::SelfAdjointEigenSolver<MatD> es(p.A); sv = E = es.eigenvalues(); U = C = es.eigenvectors(); } else { C2 = C = symC(n, 4); E2 = VecD(n); for (int i = 0; i < n; i++) E2(i) = sym_real(S("e%d", i), -9, 9, i); E = E2; } };
  prints.clear(); std::vector<std::string> arg = {"--nelem=" + I(nel), "--nnodes=" + I(nn), "--primbas=" + I(pb), "--save=" + out};
  if (so) { Z1 = hcmd::overi["Z1"] = sym_int("Z1", 0, 50, 2); Z2 = hcmd::overi["Z2"] = sym_int("Z2", 0, 50, 1); for (std::string x : {"--Z1=1", "--Z2=1", "--R=1.7", "--alpha=0.6", "--xmax=5"}) arg.push_back(x); arg.push_back("--abs=" + I(ab)); run_main(soft::helfem_main, arg); }
  else { De = hcmd::over["De"] = sym_real("De", 0, 9, 1.5); m = cfg("deu", 0) ? 1 : sym_real("m", 0.1, 9, 1.8); hcmd::over["m"] = m; for (std::string x : {"--re=0.9", "--a=1.1", "--rmax=5"}) arg.push_back(x); arg.push_back("--deuteron=" + I(deu)); run_main(morse::helfem_main, arg); }
  sym_assert(probs.size() == 2, "overlap and Hamiltonian are diagonalised"); if (probs.size() != 2) return; std::shared_ptr<const polynomial_basis::PolynomialBasis> p(polynomial_basis::get_basis(pb, nn)); VecD bv(nel + 1); for (int i = 0; i <= nel; i++) bv(i) = so ? -5 + 10.0 * i / nel : 5.0 * i / nel; FE fe(p, bv, true, so, true, so); int n = fe.get_nbf(); VecD xq, wq; chebyshev::chebyshev(5 * p->get_nbf(), xq, wq);
  MatD Sm = MatD::Zero(n, n), T = Sm, V0 = Sm, V1 = Sm;
  for (int e = 0; e < nel; e++) { size_t i0, i1; fe.get_idx(e, i0, i1); double h = 0.5 * (bv(e + 1) - bv(e)); MatD f = fe.eval_dnf(xq, 0, e), d = fe.eval_dnf(xq, 1, e); for (int q = 0; q < xq.size(); q++) { double r = bv(e) + h * (xq(q) + 1), w = wq(q) * h; auto sc = [&](double x0) { return ab ? 1 / (std::fabs(r - x0) + al) : 1 / std::sqrt((r - x0) * (r - x0) + al * al); }; double v0 = so ? -sc(-0.5 * R) : std::pow(1 - std::exp(-a * (r - re)), 2), v1 = so ? -sc(0.5 * R) : 0; for (size_t i = i0; i <= i1; i++) for (size_t j = i0; j <= i1; j++) { double ff = w * f(q, i - i0) * f(q, j - i0); Sm(i, j) += ff; V0(i, j) += v0 * ff; V1(i, j) += v1 * ff; T(i, j) += 0.5 * w * d(q, i - i0) * d(q, j - i0); } } }
  near(probs[0].A, Sm, 1e-9, "overlap"); if (probs[0].A.rows() != n) return; MatD X = U * sv.cwiseInverse().cwiseSqrt().asDiagonal() * U.transpose(); if (!so) { T /= m * (deu ? 2 : 1); } MatD A0 = X.transpose() * T * X, A1 = X.transpose() * V0 * X, A2 = X.transpose() * V1 * X; MatD H(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) H(i, j) = A0(i, j) + (so ? Z1 * A1(i, j) + Z2 * A2(i, j) : De * A1(i, j)); near(probs[1].A, H, 1e-7, "Hamiltonian in the orthonormal basis");
  Checkpoint c(out, false); helfem::Matrix B, Cc, ph; helfem::Vector co, we; c.read("bf", B); c.read("C", Cc); c.read("phi", ph); c.read("coords", co); c.read("weights", we); MatD C = X * C2; near(Cc, C, 1e-8, "orbital coefficients"); near(ph, MatD(B) * C, 1e-7, "orbitals on the grid"); int nq = xq.size(); bool ok = B.rows() == nel * nq && co.size() == nel * nq && we.size() == nel * nq && B.cols() == n; sym_assert(ok, "grid size"); if (!ok) return;
  for (int e = 0; e < nel; e++) { size_t i0, i1; fe.get_idx(e, i0, i1); double h = 0.5 * (bv(e + 1) - bv(e)); MatD f = fe.eval_dnf(xq, 0, e); for (int q = 0; q < nq; q++) { sym_near(co(e * nq + q), bv(e) + h * (xq(q) + 1), 1e-9, "coordinate"); sym_near(we(e * nq + q), wq(q) * h, 1e-9, "weight"); for (int i = 0; i < n; i++) sym_near(B(e * nq + q, i), i >= (int)i0 && i <= (int)i1 ? f(q, i - i0) : 0, 1e-9, "basis function"); } }
  std::vector<double> pe; for (auto &l : prints) if (l.first.substr(0, 2) == "E[") { sym_assert(l.second.size() == 2 && l.second[0] == (double)pe.size(), "energy line"); pe.push_back(l.second[1]); } sym_assert((int)pe.size() == std::min(n, 10), "energies printed"); for (size_t i = 0; i < pe.size() && (int)i < n; i++) sym_near(pe[i], E2(i), 0, "energy printed");
}
// automatic basis: energies of the trial bases are symbolic up to a largest basis, beyond which nothing improves
static void t_core() {
  int Z1 = cfg("Z1", 1), Z2 = cfg("Z2", 1), nn = cfg("nn", 2), nadd = cfg("nadd", 2), nth = cfg("thresh", 1), fld = cfg("fld", 0), imodel = cfg("imodel", 0), ne1 = cfg("ne1", 1), nl1 = cfg("nl1", 1), nq = cfg("nq", 0), ang = cfg("ang", 0); double Rb = 1.4 * (ang ? ANGSTROMINBOHR : 1), Ez = fld ? 0.3 : 0, Q = fld ? 0.2 : 0, B = fld ? 0.15 : 0, Rr = 0.01;
  int no[4]; num_orbs(Z1, Z2, no[0], no[1], no[2], no[3]); int nm = 4; while (nm > 1 && !no[nm - 1]) nm--; std::shared_ptr<const polynomial_basis::PolynomialBasis> p(polynomial_basis::get_basis(4, nn));
  struct Key { int m, ne, l; double e; bool used; std::shared_ptr<TB> tb; int nbf; }; std::vector<Key> keys; int cap = 3;
  for (int m = 0; m < nm; m++) for (int i = 0; i < cap; i++) for (int j = 0; j <= nadd * cap; j++) { Key k; k.m = m; k.ne = 1 + nadd * i; k.l = m + j; k.used = false; Eigen::VectorXi lm = Eigen::VectorXi::Constant(m + 1, -1); lm(m) = k.l; Eigen::VectorXi lv, mv; diatomic::basis::lm_to_l_m(lm, lv, mv); k.tb = std::make_shared<TB>(Z1, Z2, 0.5 * Rb, p, nq ? nq : 5 * nn, atomic::basis::normal_grid(k.ne, std::acosh(6 / (0.5 * Rb)), 1, 1.0), lv, mv, false); k.nbf = k.tb->Nbf(); keys.push_back(k); }
  auto E = [&](int m, int ne, int l) { int i = std::min((ne - 1) / nadd, ne1), j = std::min(l - m, nadd * nl1); static std::map<int, double> c; int q = (m * 100 + i) * 100 + j; if (!c.count(q)) c[q] = sym_real(S("E%d_%d_%d", m, 1 + nadd * i, m + j), -3, 0, -1 - 0.2 * i - 0.07 * j); return c[q]; };
  probs.clear(); bool good = true; std::vector<int> seen;
  answer = [&](const Prob &q, VecD &Ev, MatD &C) { int n = q.A.rows(); Ev = VecD::Zero(n); C = MatD::Zero(n, n); int f = -1; for (size_t k = 0; k < keys.size() && f < 0; k++) { Key &x = keys[k]; if (x.nbf != n) continue; MatD Sm = x.tb->overlap(), H = x.tb->kinetic(), V; 
      if (!imodel) V = x.tb->nuclear(); else { std::unique_ptr<modelpotential::ModelPotential> p1, p2; if (imodel == 1) { p1.reset(new modelpotential::GSZAtom(Z1)); p2.reset(new modelpotential::GSZAtom(Z2)); } else if (imodel == 2) { p1.reset(new modelpotential::SAPAtom(Z1)); p2.reset(new modelpotential::SAPAtom(Z2)); } else if (imodel == 3) { p1.reset(new modelpotential::TFAtom(Z1)); p2.reset(new modelpotential::TFAtom(Z2)); } else { p1.reset(modelpotential::get_nuclear_model((modelpotential::nuclear_model_t)(imodel - 4), Z1, Rr)); p2.reset(modelpotential::get_nuclear_model((modelpotential::nuclear_model_t)(imodel - 4), Z2, 2 * Rr)); } diatomic::twodquad::TwoDGrid g(x.tb.get(), 4 * x.l + 12); V = g.model_potential(p1.get(), p2.get()); }
      H += V; if (Ez != 0) H += Ez * x.tb->dipole_z(); if (Q != 0) H += Q / 3 * x.tb->quadrupole_zz(); if (B != 0) H += x.tb->Bz_field(B) - 0.5 * B * Sm; if ((H - q.A).cwiseAbs().maxCoeff() < 1e-7 * (1 + H.cwiseAbs().maxCoeff())) { MatD J = q.X.transpose() * Sm * q.X; if ((J - MatD::Identity(J.rows(), J.cols())).cwiseAbs().maxCoeff() < 1e-7) f = k; } }
    sym_assert(f >= 0, "trial Hamiltonian is that of a trial basis"); if (f < 0) { good = false; throw 1; } int blocks = 0; std::vector<int> hit(n, 0); for (auto &b : q.idx) { blocks++; for (auto i : b) if (i >= 0 && i < n) hit[i]++; } bool part = true; for (int h : hit) if (h != 1) part = false; sym_assert(part, "symmetry blocks partition the basis"); Ev(0) = E(keys[f].m, keys[f].ne, keys[f].l); seen.push_back(f); };
  prints.clear(); std::vector<std::string> a = {"--Z1=" + I(Z1), "--Z2=" + I(Z2), "--Rbond=1.4", "--angstrom=" + I(ang), "--Rmax=6", "--grid=1", "--nnodes=" + I(nn), "--thresh=" + I(nth), "--nadd=" + I(nadd), "--imodel=" + I(imodel), "--Rrms1=0.01", "--Rrms2=0.02"}; if (nq) a.push_back("--nquad=" + I(nq)); if (fld) { a.push_back("--Ez=0.3"); a.push_back("--Qzz=0.2"); a.push_back("--Bz=0.15"); }
  bool rej = false; try { run_main(core::helfem_main, a); } catch (int) {} catch (const std::logic_error &) { rej = true; } sym_assert(rej == (nq && nq < 2 * nn), "too few quadrature points are refused"); if (rej || !good) return; std::vector<int> s2 = seen; std::sort(s2.begin(), s2.end()); sym_assert(std::adjacent_find(s2.begin(), s2.end()) == s2.end(), "no basis is diagonalised twice");
  int rep = 0; for (size_t i = 0; i + 1 < prints.size(); i++) if (prints[i].first.find("estimated accuracy") != std::string::npos) { double thr = prints[i].second[0]; sym_near(thr, std::pow(10.0, -rep), 1e-14, "thresholds in order"); rep++; auto &o = prints[i + 1].second; sym_assert(o.size() == 8, "basis reported"); if (o.size() != 8) return; int ne = (int)o[6]; sym_near(o[0], 1.4, 1e-12, "bond length reported"); sym_near(o[7], 6, 1e-12, "practical infinity reported"); sym_assert((int)o[1] == ang && (int)o[2] == 1 && o[3] == 1 && (int)o[4] == 4 && (int)o[5] == nn, "options reported"); std::vector<int> lm; for (size_t j = i + 2; j < prints.size() && (prints[j].first == "," || prints[j].first == "%i"); j++) if (prints[j].first == "%i") lm.push_back((int)prints[j].second[0]); sym_assert((int)lm.size() == nm, "one angular limit per symmetry"); if ((int)lm.size() != nm) return;
    for (int m = 0; m < nm; m++) { double e0 = E(m, ne, lm[m]); sym_assert(E(m, ne, lm[m] + nadd) - e0 > -thr - 1e-9, "more partial waves do not lower the energy by more than the reported accuracy"); sym_assert(E(m, ne + nadd, lm[m]) - e0 > -thr - 1e-9, "more radial elements do not lower the energy by more than the reported accuracy"); } }
  sym_assert(rep == nth + 1, "every accuracy is reported");
}
void sym_main() { std::string w = cfgs("what", "atom1"); if (w == "atom1") t_atom1(); if (w == "dia1") t_dia1(); if (w == "model") t_model(); if (w == "core") t_core(); }
