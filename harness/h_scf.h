// Plays the SCF solver for the real driver programs: asks the driver's Fock
// builder for energies and Fock matrices at chosen orbitals and occupations.
#pragma once
#include "h_xc.h"
#include "hdf5.h"
#include "general/cmdline.h"
#include "general/scf_driver_common.h"
#include "general/checkpoint.h"
#include "openorbitaloptimizer/scfsolver.hpp"
#include "general/eigen_io.h"
namespace helfem { namespace io { inline Eigen::MatrixXi occ_table; inline Eigen::MatrixXi harness_imat(const std::string &) { return occ_table; } } }  // contents of occs.dat
#include <fstream>
#include <unistd.h>
namespace OOO = OpenOrbitalOptimizer;
typedef OOO::SCFSolver<double, double> Solver;
// the drivers' option parser with real numbers replaced by symbolic ones
namespace hcmd {
inline std::map<std::string, double> over; inline std::map<std::string, int> overi;
struct parser : cmdline::parser {
  template <class T> const T &get(const std::string &n) const { return cmdline::parser::get<T>(n); }
};
template <> inline const double &parser::get<double>(const std::string &n) const { auto it = over.find(n); return it == over.end() ? cmdline::parser::get<double>(n) : it->second; }
template <> inline const int &parser::get<int>(const std::string &n) const { auto it = overi.find(n); return it == overi.end() ? cmdline::parser::get<int>(n) : it->second; }
}
// a set-up is refused exactly when it should be; the calculation stops when the solver would start
template <class F> static void setup_test(F run, bool bad, const std::string &what) {
  bool started = false, rej = false; OOO::hook = [&](Solver &) { started = true; throw 1; };
  try { run(); } catch (int) {} catch (const std::logic_error &) { rej = true; } catch (const std::runtime_error &) { rej = true; }
  sym_assert(rej == bad, what + " refused exactly when it cannot be honoured"); sym_assert(started == !bad, what + ": calculation starts");
}
static int pickv(const std::string &n, const std::vector<int> &v) { static volatile int T[32]; int i = sym_int(n, 0, (int)v.size() - 1, 0); for (size_t k = 0; k < v.size(); k++) T[k] = v[k]; for (size_t k = 0; k < v.size(); k++) if (i == (int)k) return T[k]; return T[0]; }
struct Scratch { std::string dir; std::vector<std::string> f;
  Scratch() { char b[] = "/tmp/symscfXXXXXX"; if (mkdtemp(b)) dir = b; }
  std::string file(const std::string &n) { f.push_back(dir + "/" + n); return f.back(); }
  ~Scratch() { for (auto &x : f) unlink(x.c_str()); rmdir(dir.c_str()); } };
static int run_main(int (*fn)(int, char **), const std::vector<std::string> &args) {
  std::vector<std::string> a = args; a.insert(a.begin(), "prog"); std::vector<char *> p; for (auto &x : a) p.push_back(const_cast<char *>(x.c_str())); p.push_back(nullptr);
  return fn((int)a.size(), p.data());
}
typedef OOO::DensityMatrix<double, double> DM;
static double trp(const MatD &A, const MatD &B) { double s = 0; for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) s += A(i, j) * B(j, i); return s; }
// base orbitals of a block (not orthogonal on purpose)
static MatD base_orb(int n, int b, int q) { MatD M(n, q); for (int i = 0; i < n; i++) for (int j = 0; j < q; j++) M(i, j) = (i == j ? 0.9 : 0) + 0.15 * ((3 * i + 2 * j + b) % 4) - 0.2; return M; }
// A density with columns [base | c | e0]; occupations [base | t | -t c.c in block k1]: particle numbers do not depend on t.
struct Probe {
  std::vector<int> n; int nsym, k0, k1; VecD c; std::vector<MatD> B; std::vector<VecD> o;
  DM at(double t) const {
    DM d; d.first.resize(n.size()); d.second.resize(n.size());
    for (size_t b = 0; b < n.size(); b++) {
      int q = B[b].cols(), x = (int)((int)b == k0) + (int)((int)b == k1); MatD C(n[b], q + x); VecD w(q + x); C.leftCols(q) = B[b]; w.head(q) = o[b]; int p = q;
      if ((int)b == k0) { C.col(p) = c; w(p++) = t; }
      if ((int)b == k1) { C.col(p) = VecD::Unit(n[b], 0); double cc = 0; for (int i = 0; i < c.size(); i++) cc += c(i) * c(i); w(p++) = -t * cc; }
      d.first[b] = C; d.second[b] = w;
    }
    return d;
  }
  double dE(const OOO::FockMatrix<double> &F) const { double s = 0, cc = 0; for (int i = 0; i < c.size(); i++) { cc += c(i) * c(i); for (int j = 0; j < c.size(); j++) s += c(i) * F[k0](i, j) * c(j); } return s - cc * F[k1](0, 0); }
  double norm(int s0, int s1) const { double s = 0; for (int b = s0; b < s1; b++) for (int j = 0; j < B[b].cols(); j++) for (int i = 0; i < n[b]; i++) s += o[b](j) * B[b](i, j) * B[b](i, j); return s; }
};
// block sizes are known to the caller; targets[t]: electrons of each particle type
static Probe make_probe(const std::vector<int> &bs, int nparttype, const std::vector<double> &target, int sym_in) {
  Probe P; P.nsym = bs.size(); for (int t = 0; t < nparttype; t++) for (int b : bs) P.n.push_back(b);
  int s0 = cfg("k0", 0), s1 = cfg("k1", 0); P.k0 = sym_in * P.nsym + s0; P.k1 = sym_in * P.nsym + s1;
  P.c = VecD(P.n[P.k0]); int act = cfg("act", 3); double amp = cfg("camp", 10) * 0.1;
  for (int i = 0; i < P.c.size(); i++) P.c(i) = i < act ? sym_real(S("c%d", i), -amp, amp, amp * (0.6 - 0.3 * i)) : amp * (0.3 - 0.2 * (i % 3));
  for (size_t b = 0; b < P.n.size(); b++) { int q = std::min(P.n[b], 2); P.B.push_back(base_orb(P.n[b], b, q)); VecD o(q); for (int i = 0; i < q; i++) o(i) = 0.8 - 0.3 * i + 0.07 * (b % 3); P.o.push_back(o); }
  for (int t = 0; t < nparttype; t++) { double s = P.norm(t * P.nsym, (t + 1) * P.nsym); for (int b = t * P.nsym; b < (t + 1) * P.nsym; b++) P.o[b] *= target[t] / s; }
  return P;
}
// Fock matrices are the derivative of the energy (energies quadratic in the density)
static double check_variation(Solver &s, const Probe &P, double tol, bool batched = false) {
  auto f0 = s.builder(P.at(0)), fp = s.builder(P.at(1)), fm = s.builder(P.at(-1));
  sym_assert(f0.second.size() == P.n.size(), "a Fock matrix per block and spin");
  for (size_t b = 0; b < P.n.size(); b++) { const MatD &F = f0.second[b]; sym_assert(F.rows() == P.n[b] && F.cols() == P.n[b], "Fock matrix shape"); for (int i = 0; i < F.rows(); i++) for (int j = 0; j < i; j++) sym_near(F(i, j), F(j, i), tol, "symmetric Fock matrix"); }
  sym_near(0.5 * (fp.first - fm.first), P.dE(f0.second), tol, "energy change equals the Fock matrix element");
  if (batched) {
    auto r = s.batched({P.at(1), P.at(0)}); sym_assert(r.size() == 2, "a result per density");
    sym_near(r[0].first, fp.first, tol, "batched energy"); sym_near(r[1].first, f0.first, tol, "batched energy");
    for (size_t b = 0; b < P.n.size(); b++) for (int i = 0; i < P.n[b]; i++) for (int j = 0; j < P.n[b]; j++) sym_near(r[1].second[b](i, j), f0.second[b](i, j), tol, "batched Fock matrix");
  }
  auto d = P.at(1); s.orbs = d.first; s.occs = d.second;
  return fp.first;
}

// A density matrix on the functions idx (in units of p): p c c^T
static void add_rank1(MatD &P, const std::vector<Eigen::Index> &idx, double p) { for (size_t i = 0; i < idx.size(); i++) for (size_t j = 0; j < idx.size(); j++) P(idx[i], idx[j]) += p * (1.0 / (1.0 + i)) * (1.0 / (1.0 + j)); }
// --load: the density an earlier run saved is the density the solver starts from, and the one that is saved again
template <class TB> static void load_test(const TB &tbo, const TB &tb, int seff, int (*fn)(int, char **), std::vector<std::string> args, const std::string &fin, const std::string &fout, int na, int nb, bool R) {
  double tol = std::pow(10.0, -cfg("tole", 7)); int mp = cfg("mpop", 1), two = cfg("two", 1), contain = cfg("contain", 1), na0 = cfg("na0", na), nb0 = cfg("nb0", nb);
  double p1 = sym_real("p1", 0.2, 0.5, 0.4), p2 = two ? sym_real("p2", 0.2, 0.5, 0.3) : 0.6 * p1;
  MatD Pa = MatD::Zero(tbo.Nbf(), tbo.Nbf()), Pb = Pa; auto ip = tbo.m_indices(mp), im = tbo.m_indices(-mp);
  add_rank1(Pa, ip, p1); if (mp) add_rank1(Pa, im, p2); add_rank1(Pb, ip, p2); if (mp) add_rank1(Pb, im, p1); if (nb0 == 0) Pb.setZero(); if (na0 == 0) Pa.setZero();
  { Checkpoint c(fin, true); c.write(tbo); c.write("Pa", Pa); c.write("Pb", Pb); c.write("nela", na0); c.write("nelb", nb0); }
  bool ran = false; MatD So = tbo.overlap(), Sn = tb.overlap(), S12 = tb.overlap(tbo);
  OOO::hook = [&](Solver &s) {
    ran = true; sym_assert(s.guess.empty(), "loaded orbitals instead of a starting Fock matrix"); sym_assert(s.orbs0.size() == (size_t)s.maxocc.size() && s.occs0.size() == s.orbs0.size(), "orbitals for every block"); if (s.orbs0.size() != (size_t)s.maxocc.size()) throw 1;
    int np = s.npart.size(), ns = s.nblocks(0);
    for (int t = 0; t < np; t++) {
      double n = 0; for (int k = 0; k < ns; k++) for (int i = 0; i < s.occs0[t * ns + k].size(); i++) { double o = s.occs0[t * ns + k](i); n += o; sym_le(0, o, 1e-9, "occupation number not negative"); sym_le(o, s.maxocc(t * ns + k), 1e-9, "occupation within the capacity"); }
      sym_near(n, s.npart(t), tol, "electrons in the loaded orbitals");
    }
    s.orbs = s.orbs0; s.occs = s.occs0;
  };
  bool rej = false; args.push_back("--load=" + fin); args.push_back("--save=" + fout);
  try { run_main(fn, args); } catch (int) { return; } catch (const std::logic_error &) { rej = true; }
  sym_assert(rej == (na0 != na || nb0 != nb), "state with other electron numbers is refused"); if (rej) return;
  sym_assert(ran, "solver runs"); if (!ran) return;
  Checkpoint c(fout, false); MatD Qa, Qb; c.read("Pa", Qa); c.read("Pb", Qb);
  auto norm = [&](MatD P, int n) { double t = trp(P, So); if (n) P *= n / t; return P; };
  MatD Ra = norm(Pa, na), Rb = norm(Pb, nb); if (R) { Ra = 0.5 * (Ra + Rb); Rb = Ra; }
  auto sym3 = [&](MatD &P) { if (seff != 3 || !mp) return; MatD A = P; for (size_t i = 0; i < ip.size(); i++) for (size_t j = 0; j < ip.size(); j++) A(ip[i], ip[j]) = A(im[i], im[j]) = 0.5 * (P(ip[i], ip[j]) + P(im[i], im[j])); P = A; };
  sym3(Ra); sym3(Rb);
  for (int t = 0; t < 2; t++) {
    const MatD &Q = t ? Qb : Qa, &P = t ? Rb : Ra; sym_assert(Q.rows() == Sn.rows() && Q.cols() == Sn.cols(), "saved density size"); if (Q.rows() != Sn.rows()) return;
    sym_near(trp(Q, Sn), trp(P, So), tol, "electrons in the saved density");
    if (contain) { MatD A = S12.transpose() * Q * S12, B = So * P * So; for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) sym_near(A(i, j), B(i, j), tol, "saved density is the loaded density"); }
  }
}

// --readocc: rows (alpha, beta, quantum numbers) freeze the electrons of the named block.  kind: 1 (m), 2 (l, m), 3 (m, parity)
static void occ_test(int (*fn)(int, char **), std::vector<std::string> args, int na, int nb, bool R, int kind, const std::vector<std::string> &labels, const std::vector<std::vector<Eigen::Index>> &idx) {
  int nr = cfg("rows", 2), nc = kind == 1 ? 3 : 4, cap = cfg("cap", 2), ns = labels.size(), np = R ? 1 : 2; if (cfg("cols", 0)) nc = cfg("cols", 0);
  auto lab = [](const char *n, int v) { return std::string(n) + "=" + (v > 0 && n[0] == 'm' ? "+" : "") + std::to_string(v); };
  Eigen::MatrixXi t(nr, nc); std::vector<int> blk(nr, -1); 
  for (int i = 0; i < nr; i++) {
    t(i, 0) = sym_int(S("a%d", i), 0, cap, i == 0 ? na : 0); t(i, 1) = sym_int(S("b%d", i), 0, cap, i == 0 ? nb : 0);
    int lo = cfg("mlo", -2), hi = cfg("mhi", 2); int m = sym_int(S("m%d", i), lo, hi, 0), l = kind == 2 ? sym_int(S("l%d", i), 0, cfg("lhi", 2), 0) : kind == 3 ? sym_int(S("p%d", i), -1, 1, 1) : 0;
    if (kind == 2) { t(i, 2) = l; t(i, 3) = m; } else { t(i, 2) = m; if (nc > 3) t(i, 3) = l; }
    for (int v = lo; v <= hi; v++) if (m == v) for (int w = -1; w <= 2; w++) { if (kind > 1 && l != w) continue;
      std::string L = kind == 2 ? lab("l", w) + " " + lab("m", v) : kind == 3 ? lab("m", v) + (w == 1 ? " g" : w == -1 ? " u" : " ?") : lab("m", v);
      for (int k = 0; k < ns; k++) if (labels[k] == L && !idx[k].empty()) blk[i] = k; if (kind == 1) break; }
  }
  bool ok = true; int sa = 0, sb = 0; for (int i = 0; i < nr; i++) { if (blk[i] < 0) ok = false; sa += t(i, 0); sb += t(i, 1); if (R && t(i, 0) != t(i, 1)) ok = false; } if (sa != na || sb != nb) ok = false; if (cfg("refuse", 0)) ok = false;
  helfem::io::occ_table = t; bool ran = false; args.push_back("--readocc=1");
  OOO::hook = [&](Solver &s) {
    ran = true; sym_assert(s.fixed.size() == np * ns, "frozen occupation of every block"); if (s.fixed.size() != np * ns) throw 1;
    double n = 0, b = 0;
    for (int t2 = 0; t2 < np; t2++) for (int k = 0; k < ns; k++) { int w = 0; for (int i = 0; i < nr; i++) if (blk[i] == k) w += R ? t(i, 0) + t(i, 1) : t(i, t2); sym_near(s.fixed(t2 * ns + k), w, 0, "frozen electrons of a block"); (t2 ? b : n) += s.fixed(t2 * ns + k); }
    sym_near(n, s.npart(0), 0, "frozen electrons add up"); if (!R) sym_near(b, s.npart(1), 0, "frozen electrons add up");
    throw 1;
  };
  bool rej = false; try { run_main(fn, args); } catch (int) {} catch (const std::logic_error &) { rej = true; }
  sym_assert(rej == !ok, "occupations are refused exactly when they do not fit"); sym_assert(ran == ok, "calculation runs");
}
