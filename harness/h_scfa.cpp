// Atomic SCF program.
#include "h_scf.h"
#define cmdline hcmd
#define read_raw_ascii_imat harness_imat
#define main helfem_atomic_main
#include "atomic/main.cpp"
#undef main
#undef cmdline
#undef read_raw_ascii_imat
typedef atomic::basis::TwoDBasis TB;
// starting potential minus the nuclear attraction
static MatD guess_potential(TB &tb, int ig) { int Z = cfg("Z", 3); std::unique_ptr<modelpotential::ModelPotential> a; switch (ig) { case 1: a.reset(new modelpotential::GSZAtom(Z)); break; case 2: a.reset(new modelpotential::SAPAtom(Z)); break; case 3: a.reset(new modelpotential::TFAtom(Z)); break; default: a.reset(new modelpotential::SAPFEAtom(Z)); } return tb.model_potential(a.get()) - tb.nuclear(); }
void sym_main() {
  int lmax = cfg("lmax", 1), mmax = cfg("mmax", 1), nel = cfg("nel", 2), nn = cfg("nnodes", 2), symm = cfg("symm", 1), Z = cfg("Z", 3), restr = cfg("restr", 0), na = cfg("nela", 2), nb = cfg("nelb", 1);
  int Zl = cfg("Zl", 0), Zr = cfg("Zr", 0), iconf = cfg("iconf", 0), finite = cfg("finite", 0); double Rmid = Zl || Zr ? 1.1 : 0; bool xc = cfg("x", 0) > 0;
  std::string meth = cfgs("method", "HF"); double tol = std::pow(10.0, -cfg("tole", 7));
  Scratch scr; std::string chk = scr.file("a.chk");
  auto I = [](int i) { return std::to_string(i); };
  std::vector<std::string> args = {"--Z=" + I(Z), "--lmax=" + I(lmax), "--mmax=" + I(mmax), "--nelem=" + I(nel), "--nnodes=" + I(nn), "--Rmax=3", "--primbas=4", "--grid=1", "--grid0=1", "--method=" + meth, "--iguess=" + I(cfg("iguess", 0)), "--symmetry=" + I(symm), "--verbosity=0", "--restricted=" + I(restr), "--nela=" + I(na), "--nelb=" + I(nb), "--save=" + chk, "--finitenuc=" + I(finite), "--Rrms=0.4", "--iconf=" + I(iconf), "--conf_N=2", "--conf_R=1.7", "--conf_barrier=1.3", "--shift_conf=0.2", "--add_conf=0", "--ldft=2", "--mdft=3"};
  if (Zl || Zr) for (auto &x : {"--Zl=" + I(Zl), "--Zr=" + I(Zr), std::string("--nelem0=1")}) args.push_back(x), hcmd::over["Rmid"] = cfg("angstrom", 0) ? Rmid * 0.52917721067 : Rmid;
  if (cfg("angstrom", 0)) args.push_back("--angstrom=1");
  if (cfg("nquad", 0)) args.push_back("--nquad=" + I(cfg("nquad", 0)));
  double Ez = 0, Qz = 0, Bz = 0;
  if (cfg("Ez", 0)) hcmd::over["Ez"] = Ez = sym_real("Ez", 0.1, 2, 0.7);
  if (cfg("Qzz", 0)) hcmd::over["Qzz"] = Qz = sym_real("Qzz", -2, -0.1, -0.6);
  if (cfg("Bz", 0)) hcmd::over["Bz"] = Bz = sym_real("Bz", 0.1, 2, 0.8);
  if (xc) xc_setup();
  if (cfg("hyb", 0)) { xcs::hyb_a = cfg("hyb", 0) == 2 ? 0 : sym_real("alpha", 0.1, 1, 0.3); if (cfg("hyb", 0) > 1) { xcs::hyb_b = sym_real("beta", 0.1, 1, 0.4); xcs::hyb_w = 0.6; } }
  if (cfgs("what", "scf") == "setup") {
    std::string c = cfgs("case", "nquad"); auto go = [&] { run_main(helfem_atomic_main, args); }; auto &O = hcmd::overi; int nbf = std::unique_ptr<polynomial_basis::PolynomialBasis>(polynomial_basis::get_basis(4, nn))->get_nbf();
    if (c == "nquad") { int n = O["nquad"] = sym_int("nquad", 0, 3 * nbf, 0); setup_test(go, n != 0 && n < 2 * nbf, "quadrature order"); }
    if (c == "iguess") { int n = O["iguess"] = sym_int("iguess", -1, 6, 0); setup_test(go, n < 0 || n > 4, "starting potential"); }
    if (c == "offc") { int l = pickv("Zl", {0, 1}), r = pickv("Zr", {0, 2}), pos = pickv("pos", {0, 1}), n = O["nelem0"] = sym_int("nelem0", 0, 1, 1); args.push_back("--Zl=" + I(l)); args.push_back("--Zr=" + I(r)); double R = hcmd::over["Rmid"] = pos ? 1.1 : sym_real("Rmid", -2, 0, -0.5); setup_test(go, (l || r) && (R <= 0 || n < 1), "off-centre charges"); }
    return;
  }
  // reference basis
  int seff = symm; if (symm == 2 && (Ez != 0 || Qz != 0 || Bz != 0 || Zl || Zr)) seff = 1;
  Eigen::VectorXi lv, mv; atomic::basis::angular_basis(lmax, mmax, lv, mv);
  VecD bv = atomic::basis::form_grid((modelpotential::nuclear_model_t)finite, 0.4, nel, 3.0, 1, 2.0, Zl || Zr ? 1 : 0, 1, 2.0, Z, Zl, Zr, Rmid, false, 0.2);
  std::shared_ptr<const polynomial_basis::PolynomialBasis> p(polynomial_basis::get_basis(4, nn));
  int nq = cfg("nquad", 0) ? cfg("nquad", 0) : 5 * p->get_nbf();
  TB tb(Z, (modelpotential::nuclear_model_t)finite, 0.4, p, false, nq, bv, lv, mv, Zl, Zr, Rmid);
  auto idx = tb.get_sym_idx(seff); auto lab = tb.get_sym_labels(seff); std::vector<int> bs; for (auto &x : idx) bs.push_back(x.size());
  bool R = restr == 1 || (restr == -1 && na == nb); int np = R ? 1 : 2, ns = bs.size(), spin = cfg("spin", 0);
  if (cfgs("what", "scf") == "occ") { args.erase(std::remove(args.begin(), args.end(), "--save=" + chk), args.end()); occ_test(helfem_atomic_main, args, na, nb, R, cfg("kind", seff == 2 ? 2 : 1), lab, idx); return; }
  if (cfgs("what", "scf") == "load") {
    int no = cfg("nnodeso", nn), eo = cfg("nelo", nel); Eigen::VectorXi ol, om; atomic::basis::angular_basis(cfg("lmaxo", lmax), cfg("mmaxo", mmax), ol, om);
    std::shared_ptr<const polynomial_basis::PolynomialBasis> po(polynomial_basis::get_basis(4, no)); VecD bo = atomic::basis::form_grid((modelpotential::nuclear_model_t)finite, 0.4, eo, 3.0, 1, 2.0, Zl || Zr ? 1 : 0, 1, 2.0, Z, Zl, Zr, Rmid, false, 0.2);
    TB tbo(Z, (modelpotential::nuclear_model_t)finite, 0.4, po, false, 5 * po->get_nbf(), bo, ol, om, Zl, Zr, Rmid);
    args.erase(std::remove(args.begin(), args.end(), "--save=" + chk), args.end()); load_test(tbo, tb, seff, helfem_atomic_main, args, scr.file("b.chk"), chk, na, nb, R); return;
  }
  Probe P = make_probe(bs, np, R ? std::vector<double>{(double)(na + nb)} : std::vector<double>{(double)na, (double)nb}, spin);
  double E = 0; bool ran = false;
  OOO::hook = [&](Solver &s) {
    ran = true;
    sym_assert(s.nblocks.size() == np && s.npart.size() == np && s.maxocc.size() == np * ns && (int)s.desc.size() == np * ns, "solver layout");
    if (!(s.nblocks.size() == np && s.npart.size() == np && s.maxocc.size() == np * ns && (int)s.desc.size() == np * ns)) return;
    for (int t = 0; t < np; t++) { sym_assert(s.nblocks(t) == ns, "number of blocks"); sym_near(s.npart(t), R ? na + nb : t ? nb : na, 0, "number of particles"); for (int k = 0; k < ns; k++) { sym_near(s.maxocc(t * ns + k), R ? 2 : 1, 0, "orbital capacity"); sym_assert(s.desc[t * ns + k] == (R ? "" : t ? "b:" : "a:") + lab[k], "block label"); } }
    // starting Fock matrix: the Hamiltonian without electron repulsion
    sym_assert((int)s.guess.size() == np * ns, "starting Fock matrices");
    if (!xc && meth == "HF") { Probe Z0 = P; for (auto &o : Z0.o) o.setZero(); auto f = s.builder(Z0.at(0)); 
      if (cfg("iguess", 0)) { MatD dV = guess_potential(tb, cfg("iguess", 0)), Sg = tb.overlap(); for (int b = 0; b < np * ns; b++) { auto &ix = idx[b % ns]; MatD X = helfem::scf::form_Sinvh(MatD(Sg(ix, ix)), false); f.second[b] += X.transpose() * MatD(dV(ix, ix)) * X; } }
      for (int b = 0; b < np * ns; b++) for (int i = 0; i < P.n[b]; i++) for (int j = 0; j < P.n[b]; j++) sym_near(s.guess[b](i, j), f.second[b](i, j), tol, "starting Fock matrix"); }
    E = check_variation(s, P, tol);
  };
  run_main(helfem_atomic_main, args);
  sym_assert(ran, "solver runs"); if (!ran) return;
  // the saved densities carry the state
  Checkpoint c(chk, false); TB sb; c.read(sb); MatD Pa, Pb; c.read("Pa", Pa); c.read("Pb", Pb); int ra, rb; c.read("nela", ra); c.read("nelb", rb);
  sym_assert(ra == na && rb == nb, "saved electron counts"); sym_assert(sb.Nbf() == tb.Nbf(), "saved basis");
  MatD Sm = tb.overlap(), Ss = sb.overlap(); for (int i = 0; i < Sm.rows(); i++) for (int j = 0; j < Sm.cols(); j++) sym_near(Ss(i, j), Sm(i, j), 1e-10, "saved basis");
  double nea = trp(Pa, Sm), neb = trp(Pb, Sm); sym_near(nea, R ? 0.5 * (na + nb) : na, tol, "electrons in the saved density"); sym_near(neb, R ? 0.5 * (na + nb) : nb, tol, "electrons in the saved density");
  MatD Pt = Pa + Pb; tb.compute_tei(true);
  double ref = trp(Pt, tb.kinetic()) + trp(Pt, tb.nuclear()) + 0.5 * trp(Pt, tb.coulomb(Pt));
  if (Ez != 0) ref += Ez * trp(Pt, tb.dipole_z()); if (Qz != 0) ref += Qz / 3 * trp(Pt, tb.quadrupole_zz());
  if (Bz != 0) ref += trp(Pt, tb.Bz_field(Bz)) - 0.5 * Bz * (nea - neb);
  if (iconf) ref += trp(Pt, tb.confinement(2, 1.7, iconf, 1.3, 0.2));
  if (Zl || Zr) ref += Z * (Zl + Zr) / Rmid + Zl * Zr / (2 * Rmid) - Ez * (Zr - Zl) * Rmid - Qz * (Zl + Zr) * Rmid * Rmid / 3;
  double kf = cfg("kf", 100) * 0.01, ks = 0; if (cfg("hyb", 0)) { kf = xcs::hyb_a; ks = xcs::hyb_b; }
  if (kf != 0) ref += 0.5 * kf * (trp(Pa, tb.exchange(Pa)) + trp(Pb, tb.exchange(Pb)));
  if (ks != 0) { if (cfg("yuk", 0)) tb.compute_yukawa(0.6); else tb.compute_erfc(0.6); ref += 0.5 * ks * (trp(Pa, tb.rs_exchange(Pa)) + trp(Pb, tb.rs_exchange(Pb))); }
  if (xc) { atomic::dftgrid::DFTGrid g(&tb, 2, 3); double Ex, Ne, Ek; MatD A, B; g.eval_Fxc(cfg("x", 0), VecD(), cfg("c", 0), VecD(), Pa, Pb, A, B, Ex, Ne, Ek, true, 1e-12); ref += Ex; }
  sym_near(E, ref, tol, "total energy of the saved density");
}
