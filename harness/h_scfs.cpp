// SCF of the spherically averaged atom.
#include "h_scf.h"
#include "sadatom/scf.h"
#include "sadatom/dftgrid.h"
#include "general/model_potential.h"
#include "atomic/basis.h"
#include "grid.h"
using namespace helfem;
typedef sadatom::basis::TwoDBasis TB; typedef helfem::Cube Cube;
static int occint(double x) { return (int)std::lround(x); }
void sym_main() {
  int lmax = cfg("lmax", 1), nel = cfg("nel", 2), nn = cfg("nnodes", 2), Z = cfg("Z", 3), na = cfg("nela", 2), nb = cfg("nelb", 1), iconf = cfg("iconf", 0), finite = cfg("finite", 0), ig = cfg("iguess", 0), x = cfg("x", 0), c = cfg("c", 0), frz = cfg("freeze", 0);
  bool R = cfg("restr", 0); double tol = std::pow(10.0, -cfg("tole", 7)), pi4 = 4 * M_PI; if (x > 0) xc_setup();
  if (cfg("hyb", 0)) { xcs::hyb_a = cfg("hyb", 0) == 2 ? 0 : sym_real("alpha", 0.1, 1, 0.3); if (cfg("hyb", 0) > 1) { xcs::hyb_b = sym_real("beta", 0.1, 1, 0.4); xcs::hyb_w = 0.6; } }
  Scratch scr; sadatom::scf::AtomicSCFOptions o; o.Z = Z; o.lmax = lmax; o.poly = std::shared_ptr<const polynomial_basis::PolynomialBasis>(polynomial_basis::get_basis(4, nn)); o.Nquad = 5 * o.poly->get_nbf();
  o.bval = atomic::basis::normal_grid(nel, 3.0, 1, 1.0); o.nela = na; o.nelb = nb; o.restricted = R; o.x_func = x; o.c_func = c; o.iguess = ig; o.finitenuc = (modelpotential::nuclear_model_t)finite; o.Rrms = 0.4; o.verbosity = 0; o.save_file = scr.file("a.chk");
  o.iconf = iconf; o.conf_N = 2; o.conf_R = 1.7; o.conf_barrier = 1.3; o.shift_conf = 0.2;
  TB tb(Z, o.finitenuc, 0.4, o.poly, false, o.Nquad, o.bval, lmax); int N = tb.Nbf(), nl = lmax + 1, np = R ? 1 : 2; std::vector<int> bs(nl, N);
  if (frz) { o.fixed_per_l_a = VecD(nl); o.fixed_per_l_b = VecD(nl); for (int l = 0; l < nl; l++) { o.fixed_per_l_a(l) = sym_real(S("fa%d", l), 0, 1, 0.5); o.fixed_per_l_b(l) = sym_real(S("fb%d", l), 0, 1, 0.4); } if (R) o.fixed_per_l_b = VecD(); }
  MatD So = tb.overlap(), T = tb.kinetic(), Tl = tb.kinetic_l(), V = tb.nuclear(), Vc = MatD::Zero(N, N); if (iconf) Vc = tb.confinement(2, 1.7, iconf, 1.3, 0.2);
  if (cfgs("what", "scf") == "load") {
    // density per l of an earlier calculation, in its own basis
    int no = cfg("nnodeso", nn), eo = cfg("nelo", nel), lo = cfg("lmaxo", lmax), contain = cfg("contain", 1), two = cfg("two", 1); bool Ro = cfg("restro", R);
    auto po = std::shared_ptr<const polynomial_basis::PolynomialBasis>(polynomial_basis::get_basis(4, no)); VecD bo = atomic::basis::normal_grid(eo, 3.0, 1, 1.0); TB tbo(Z, o.finitenuc, 0.4, po, false, 5 * po->get_nbf(), bo, lo); int M = tbo.Nbf(); MatD Sq = tbo.overlap(), S12 = tb.overlap(tbo);
    o.load_file = scr.file("b.chk"); double p = sym_real("p", 0.1, 1.2, 0.9), q = two ? sym_real("q", 0.1, 1.2, 0.35) : 0.6 * p;
    std::vector<MatD> P[2]; { Checkpoint k(o.load_file, true); k.write("sadatom_Z", Z); k.write("sadatom_lmax", lo); k.write("sadatom_primbas", 4); k.write("sadatom_nnodes", no); k.write("sadatom_Nquad", 5 * po->get_nbf()); k.write("sadatom_bval", bo);
      for (int t = 0; t < (Ro ? 1 : 2); t++) { Eigen::MatrixXi oc(lo + 1, 1); for (int l = 0; l <= lo; l++) { double occ = (t ? q : p) * (l ? 0.9 : 0.5); std::vector<Eigen::Index> id(M); for (int i = 0; i < M; i++) id[i] = i; MatD A = MatD::Zero(M, M); add_rank1(A, id, 1.0); A *= 1 / trp(A, Sq); A *= occ; P[t].push_back(A); k.write(std::string(t ? "sadatom_Pbl_" : "sadatom_Pal_") + std::to_string(l), A); oc(l, 0) = cfg("occi", -1) >= 0 ? cfg("occi", -1) : occ < 0.5 ? 0 : occ < 1.5 ? 1 : 2; } k.write(t ? "sadatom_occs_b" : "sadatom_occs_a", oc); } }
    OOO::hook = [&](Solver &s) {
      sym_assert(s.guess.empty(), "loaded orbitals instead of a starting Fock matrix"); sym_assert((int)s.orbs0.size() == np * nl && (int)s.occs0.size() == np * nl, "orbitals for every block"); if ((int)s.orbs0.size() != np * nl) throw 1;
      for (int t = 0; t < np; t++) for (int l = 0; l < nl; l++) { double n = 0; for (int i = 0; i < s.occs0[t * nl + l].size(); i++) { double w = s.occs0[t * nl + l](i); n += w; sym_le(0, w, 1e-9, "occupation number not negative"); sym_le(w, (R ? 2 : 1) * (2 * l + 1), 1e-9, "occupation within the capacity"); } sym_near(n, l <= lo ? trp(P[t][l], Sq) : 0, tol, "electrons of each angular momentum in the loaded orbitals"); }
      s.orbs = s.orbs0; s.occs = s.occs0;
    };
    sadatom::scf::AtomicSCFResult r; try { r = sadatom::scf::run_atomic_scf(o); } catch (int) { return; }
    for (int t = 0; t < np; t++) for (int l = 0; l < nl; l++) { const MatD &Q = t ? r.Pl_b[l] : r.Pl_a[l]; MatD A = S12.transpose() * Q * S12, B = l <= lo ? MatD(Sq * P[t][l] * Sq) : MatD::Zero(M, M); if (contain) for (int i = 0; i < M; i++) for (int j = 0; j < M; j++) sym_near(A(i, j), B(i, j), tol, "loaded density"); }
    return;
  }
  Probe P = make_probe(bs, np, R ? std::vector<double>{(double)(na + nb)} : std::vector<double>{(double)na, (double)nb}, cfg("spin", 0));
  if (nb == 0 && !R) for (int b = nl; b < 2 * nl; b++) P.o[b].setZero();
  double E = 0; bool ran = false;
  OOO::hook = [&](Solver &s) {
    ran = true; bool lay = s.nblocks.size() == np && s.npart.size() == np && s.maxocc.size() == np * nl && (int)s.desc.size() == np * nl && (int)s.guess.size() == np * nl; sym_assert(lay, "solver layout"); if (!lay) throw 1;
    for (int t = 0; t < np; t++) { sym_assert(s.nblocks(t) == nl, "number of blocks"); sym_near(s.npart(t), R ? na + nb : t ? nb : na, 0, "number of particles"); for (int l = 0; l < nl; l++) { sym_near(s.maxocc(t * nl + l), (R ? 2 : 1) * (2 * l + 1), 0, "orbital capacity"); sym_assert(s.desc[t * nl + l] == (R ? "" : t ? "b:" : "a:") + ("l=" + std::to_string(l)), "block label"); } }
    if (frz) { sym_assert(s.fixed.size() == np * nl, "frozen occupations"); if (s.fixed.size() == np * nl) for (int t = 0; t < np; t++) for (int l = 0; l < nl; l++) sym_near(s.fixed(t * nl + l), t ? o.fixed_per_l_b(l) : o.fixed_per_l_a(l), 0, "frozen occupations"); } else sym_assert(s.fixed.size() == 0, "no frozen occupations");
    // starting Fock matrix
    MatD X = tb.Sinvh(), Vg = V; if (ig) { modelpotential::ModelPotential *m = ig == 1 ? (modelpotential::ModelPotential *)new modelpotential::GSZAtom(Z) : ig == 2 ? (modelpotential::ModelPotential *)new modelpotential::SAPAtom(Z) : ig == 3 ? (modelpotential::ModelPotential *)new modelpotential::TFAtom(Z) : new modelpotential::SAPFEAtom(Z); Vg = tb.model_potential(m); delete m; }
    for (int t = 0; t < np; t++) for (int l = 0; l < nl; l++) { MatD H = T + Vg + Vc + l * (l + 1) * Tl, F = X.transpose() * H * X; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) sym_near(s.guess[t * nl + l](i, j), F(i, j), tol, "starting Fock matrix"); }
    E = check_variation(s, P, tol, true);
  };
  sadatom::scf::AtomicSCFResult r; try { r = sadatom::scf::run_atomic_scf(o); } catch (int) { return; }
  sym_assert(ran, "solver runs"); if (!ran) return;
  // result and saved state
  sym_assert((int)r.Pl_a.size() == nl && (int)r.Pl_b.size() == (R ? 0 : nl) && r.Prad.rows() == N, "result shape");
  MatD Pt = MatD::Zero(N, N); double ref = 0, n = 0; Cube Xa(nl), Xb(nl); Checkpoint k(o.save_file, false); DM d = P.at(1); MatD X = tb.Sinvh();
  for (int t = 0; t < np; t++) for (int l = 0; l < nl; l++) {
    MatD C = X * d.first[t * nl + l], D = C * d.second[t * nl + l].asDiagonal() * C.transpose(), Q, Co, Oc; const MatD &G = t ? r.Pl_b[l] : r.Pl_a[l]; std::string ch = t ? "b" : "a", ls = "l_" + std::to_string(l);
    k.read("sadatom_P" + ch + ls, Q); k.read("sadatom_C" + ch + ls, Co); k.read("sadatom_occ" + ch + ls, Oc);
    MatD W = MatD::Zero(N, N); for (int q = 0; q < Co.cols(); q++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) W(i, j) += Oc(q, 0) * Co(i, q) * Co(j, q);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { sym_near(G(i, j), D(i, j), tol, "density of the result"); sym_near(Q(i, j), D(i, j), tol, "saved density"); sym_near(W(i, j), D(i, j), tol, "density of the saved orbitals"); }
    Pt += D; ref += trp(D, T) + l * (l + 1) * trp(D, Tl); (t ? Xb : Xa)[l] = D;
  }
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) sym_near(r.Prad(i, j), Pt(i, j), tol, "total density of the result");
  n = trp(Pt, So); sym_near(n, na + nb, tol, "electrons of the result");
  ref += trp(Pt, V) + trp(Pt, Vc); tb.compute_tei(); ref += 0.5 * trp(Pt, tb.coulomb(Pt / pi4));
  double kf = x == -1 ? 1 : 0, ks = 0; if (cfg("hyb", 0)) { kf = xcs::hyb_a; ks = xcs::hyb_b; }
  if (ks != 0) { if (cfg("yuk", 0)) tb.compute_yukawa(0.6); else tb.compute_erfc(0.6); }
  for (int t = 0; t < np; t++) { Cube A = t ? Xb : Xa; for (int l = 0; l < nl; l++) A[l] = MatD(A[l] / ((R ? 2.0 : 1.0) * (2 * l + 1))); if (kf != 0) { Cube K = tb.exchange(A); for (int l = 0; l < nl; l++) ref += 0.5 * kf * trp(K[l], (t ? Xb : Xa)[l]); } if (ks != 0) { Cube K = tb.rs_exchange(A); for (int l = 0; l < nl; l++) ref += 0.5 * ks * trp(K[l], (t ? Xb : Xa)[l]); } }
  if (x > 0) { sadatom::dftgrid::DFTGrid g(&tb); double Ex, Ne; Cube A, B, pa = Xa, pb = Xb; for (int l = 0; l < nl; l++) { pa[l] = MatD((R ? 0.5 : 1) / pi4 * Xa[l]); pb[l] = R ? pa[l] : MatD(Xb[l] / pi4); } g.eval_Fxc(x, VecD(), c, VecD(), pa, pb, A, B, Ex, Ne, true, 1e-12); ref += Ex; sym_near(Ne, na + nb, 1e-6, "electrons on the grid"); }
  sym_near(E, ref, tol, "total energy");
}
