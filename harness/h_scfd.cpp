// Diatomic SCF program.
#include "h_scf.h"
#define cmdline hcmd
#define read_raw_ascii_imat harness_imat
#define main helfem_diatomic_main
#include "diatomic/main.cpp"
#undef main
#undef cmdline
#undef read_raw_ascii_imat
typedef diatomic::basis::TwoDBasis TB;
// starting potential minus the nuclear attraction
static modelpotential::ModelPotential *screened(int ig, int Z) { switch (ig) { case 1: return new modelpotential::GSZAtom(Z); case 2: return new modelpotential::SAPAtom(Z); case 3: return new modelpotential::TFAtom(Z); default: return new modelpotential::SAPFEAtom(Z); } }
static MatD guess_potential(TB &tb, int ig) { std::unique_ptr<modelpotential::ModelPotential> a(screened(ig, cfg("Z1", 2))), b(screened(ig, cfg("Z2", 1))); diatomic::twodquad::TwoDGrid q(&tb, 40); return q.model_potential(a.get(), b.get()) - tb.nuclear(); }
void sym_main() {
  int nel = cfg("nel", 1), nn = cfg("nnodes", 3), symm = cfg("symm", 1), Z1 = cfg("Z1", 2), Z2 = cfg("Z2", 1), restr = cfg("restr", 0), na = cfg("nela", 2), nb = cfg("nelb", 1), finite = cfg("finite", 0), pm = cfg("purem", -1);
  std::string lstr = cfgs("lmax", "1,1"); bool xc = cfg("x", 0) > 0; double Rb = 1.4, Rh = 0.7;
  std::string meth = cfgs("method", "HF"); double tol = std::pow(10.0, -cfg("tole", 7));
  Scratch scr; std::string chk = scr.file("a.chk");
  auto I = [](int i) { return std::to_string(i); };
  std::vector<std::string> args = {"--Z1=" + I(Z1), "--Z2=" + I(Z2), "--lmax=" + lstr, "--nelem=" + I(nel), "--nnodes=" + I(nn), "--Rmax=3", "--primbas=4", "--grid=1", "--method=" + meth, "--iguess=" + I(cfg("iguess", 0)), "--symmetry=" + I(symm), "--verbosity=0", "--restricted=" + I(restr), "--nela=" + I(na), "--nelb=" + I(nb), "--save=" + chk, "--finitenuc=" + I(finite), "--Rrms1=0.4", "--Rrms2=0.3", "--ldft=3", "--mdft=3", "--purem=" + I(pm), std::string(cfg("angstrom", 0) ? "--Rbond=0.740848094938" : "--Rbond=1.4")};
  if (cfg("angstrom", 0)) args.push_back("--angstrom=1");
  if (cfg("mmax", -1) >= 0) args.push_back("--mmax=" + I(cfg("mmax", -1)));
  double Ez = 0, Qz = 0, Bz = 0;
  if (cfg("Ez", 0)) hcmd::over["Ez"] = Ez = sym_real("Ez", 0.1, 2, 0.7);
  if (cfg("Qzz", 0)) hcmd::over["Qzz"] = Qz = sym_real("Qzz", -2, -0.1, -0.6);
  if (cfg("Bz", 0)) hcmd::over["Bz"] = Bz = sym_real("Bz", 0.1, 2, 0.8);
  if (xc) xc_setup();
  if (cfg("hyb", 0)) { xcs::hyb_a = cfg("hyb", 0) == 2 ? 0 : sym_real("alpha", 0.1, 1, 0.3); if (cfg("hyb", 0) > 1) { xcs::hyb_b = sym_real("beta", 0.1, 1, 0.4); xcs::hyb_w = 0.6; } }
  if (cfgs("what", "scf") == "setup") {
    std::string c = cfgs("case", "nquad"); auto go = [&] { run_main(helfem_diatomic_main, args); }; auto &O = hcmd::overi; int nbf = std::unique_ptr<polynomial_basis::PolynomialBasis>(polynomial_basis::get_basis(4, nn))->get_nbf();
    if (c == "nquad") { int n = O["nquad"] = sym_int("nquad", 0, 3 * nbf, 0); setup_test(go, n != 0 && n < 2 * nbf, "quadrature order"); }
    if (c == "iguess") { int n = O["iguess"] = sym_int("iguess", -1, 6, 0); setup_test(go, n < 0 || n > 4, "starting potential"); }
    if (c == "purem") { int n = O["symmetry"] = sym_int("symmetry", 0, 3, 1), p = O["purem"] = sym_int("purem", -1, 1, -1); setup_test(go, n == 0 && p > 0, "reduced integration grid"); }
    if (c == "rs") { xcs::hyb_b = sym_real("beta", -1, 1, 0.4); xcs::hyb_w = 0.6; setup_test(go, xcs::hyb_b != 0, "range separation"); }
    return;
  }
  // reference basis
  int seff = symm; if (symm == 2 && (Z1 != Z2 || Ez != 0 || Qz != 0 || Bz != 0)) seff = 1; if (symm == 3 && Bz != 0) seff = 1; seff = cfg("lay", seff);
  std::vector<int> lm; if (cfg("mmax", -1) >= 0) lm.assign(cfg("mmax", -1) + 1, std::atoi(lstr.c_str())); else for (char ch : lstr) if (ch != ',') lm.push_back(ch - '0');
  Eigen::VectorXi lmm(lm.size()), lv, mv; for (size_t i = 0; i < lm.size(); i++) lmm(i) = lm[i];
  diatomic::basis::lm_to_l_m(lmm, lv, mv);
  VecD bv = atomic::basis::normal_grid(nel, std::acosh(3.0 / Rh), 1, 1.0);
  std::shared_ptr<const polynomial_basis::PolynomialBasis> p(polynomial_basis::get_basis(4, nn));
  TB tb(Z1, Z2, Rh, p, 5 * p->get_nbf(), bv, lv, mv);
  auto idx = tb.get_sym_idx(seff); auto lab = tb.get_sym_labels(seff); auto mir = tb.get_sym_mirror_idx(seff); std::vector<int> bs; for (auto &x : idx) bs.push_back(x.size());
  bool R = restr == 1 || (restr == -1 && na == nb); int np = R ? 1 : 2, ns = bs.size(), spin = cfg("spin", 0);
  if (cfgs("what", "scf") == "occ") { args.erase(std::remove(args.begin(), args.end(), "--save=" + chk), args.end()); occ_test(helfem_diatomic_main, args, na, nb, R, cfg("kind", seff == 2 ? 3 : 1), lab, idx); return; }
  if (cfgs("what", "scf") == "load") {
    std::string lo = cfgs("lmaxo", lstr.c_str()); std::vector<int> o; for (char ch : lo) if (ch != ',') o.push_back(ch - '0'); Eigen::VectorXi om = Eigen::Map<Eigen::VectorXi>(o.data(), o.size()), ol, omv; diatomic::basis::lm_to_l_m(om, ol, omv);
    int no = cfg("nnodeso", nn), eo = cfg("nelo", nel); std::shared_ptr<const polynomial_basis::PolynomialBasis> po(polynomial_basis::get_basis(4, no));
    TB tbo(Z1, Z2, Rh, po, 5 * po->get_nbf(), atomic::basis::normal_grid(eo, std::acosh(3.0 / Rh), 1, 1.0), ol, omv);
    args.erase(std::remove(args.begin(), args.end(), "--save=" + chk), args.end()); load_test(tbo, tb, seff, helfem_diatomic_main, args, scr.file("b.chk"), chk, na, nb, R); return;
  }
  Probe P = make_probe(bs, np, R ? std::vector<double>{(double)(na + nb)} : std::vector<double>{(double)na, (double)nb}, spin);
  double E = 0; bool ran = false;
  std::vector<VecD> fo;
  OOO::hook = [&](Solver &s) {
    ran = true;
    sym_assert(s.nblocks.size() == np && s.npart.size() == np && s.maxocc.size() == np * ns && (int)s.desc.size() == np * ns, "solver layout");
    if (!(s.nblocks.size() == np && s.npart.size() == np && s.maxocc.size() == np * ns && (int)s.desc.size() == np * ns)) return;
    for (int t = 0; t < np; t++) { sym_assert(s.nblocks(t) == ns, "number of blocks"); sym_near(s.npart(t), R ? na + nb : t ? nb : na, 0, "number of particles"); for (int k = 0; k < ns; k++) { sym_near(s.maxocc(t * ns + k), (R ? 2 : 1) * (mir[k].empty() ? 1 : 2), 0, "orbital capacity"); sym_assert(s.desc[t * ns + k] == (R ? "" : t ? "b:" : "a:") + lab[k], "block label"); } }
    // starting Fock matrix: the Hamiltonian without electron repulsion
    sym_assert((int)s.guess.size() == np * ns, "starting Fock matrices");
    if (!xc && meth == "HF") { Probe Z0 = P; for (auto &o : Z0.o) o.setZero(); auto f = s.builder(Z0.at(0)); 
      if (cfg("iguess", 0)) { MatD dV = guess_potential(tb, cfg("iguess", 0)), Sg = tb.overlap(); for (int b = 0; b < np * ns; b++) { auto &ix = idx[b % ns]; MatD X = helfem::scf::form_Sinvh(MatD(Sg(ix, ix)), false); f.second[b] += X.transpose() * MatD(dV(ix, ix)) * X; } }
      for (int b = 0; b < np * ns; b++) for (int i = 0; i < P.n[b]; i++) for (int j = 0; j < P.n[b]; j++) sym_near(s.guess[b](i, j), f.second[b](i, j), cfg("iguess", 0) ? 1e-3 : tol, "starting Fock matrix"); }
    E = check_variation(s, P, tol); fo.assign(s.occs.begin(), s.occs.end());
  };
  run_main(helfem_diatomic_main, args);
  sym_assert(ran, "solver runs"); if (!ran) return;
  // the saved densities carry the state
  Checkpoint c(chk, false); TB sb; c.read(sb); MatD Pa, Pb; c.read("Pa", Pa); c.read("Pb", Pb); int ra, rb; c.read("nela", ra); c.read("nelb", rb);
  sym_assert(ra == na && rb == nb, "saved electron counts"); sym_assert(sb.Nbf() == tb.Nbf(), "saved basis");
  MatD Sm = tb.overlap(), Ss = sb.overlap(); for (int i = 0; i < Sm.rows(); i++) for (int j = 0; j < Sm.cols(); j++) sym_near(Ss(i, j), Sm(i, j), 1e-10, "saved basis");
  double nea = trp(Pa, Sm), neb = trp(Pb, Sm); sym_near(nea, R ? 0.5 * (na + nb) : na, tol, "electrons in the saved density"); sym_near(neb, R ? 0.5 * (na + nb) : nb, tol, "electrons in the saved density");
  // the saved orbitals, taken in order of occupation, carry the same state; the half-inverse overlap is one
  { MatD C[2], X; c.read("Ca", C[0]); c.read("Cb", C[1]); c.read("Sinvh", X); sym_assert(X.rows() == Sm.rows() && X.cols() == Sm.cols(), "saved half-inverse overlap"); if (X.rows() == Sm.rows()) { MatD J = X.transpose() * Sm * X; for (int i = 0; i < J.rows(); i++) for (int j = 0; j < J.cols(); j++) sym_near(J(i, j), i == j, 1e-7, "saved half-inverse overlap"); }
    for (int u = 0; u < 2; u++) { std::vector<double> o; int off = R ? 0 : u * ns; for (int k = 0; k < ns; k++) for (int i = 0; i < fo[off + k].size(); i++) { double v = fo[off + k](i) * (R ? 0.5 : 1); if (!mir[k].empty()) { o.push_back(0.5 * v); o.push_back(0.5 * v); } else o.push_back(v); } std::sort(o.begin(), o.end(), std::greater<double>());
      const MatD &P = u ? Pb : Pa; bool ok = C[u].rows() == P.rows() && C[u].cols() == (long)o.size(); sym_assert(ok, "saved orbitals"); if (!ok) return; for (int i = 0; i < P.rows(); i++) for (int j = 0; j <= i; j++) { double v = 0; for (size_t q = 0; q < o.size(); q++) v += o[q] * C[u](i, q) * C[u](j, q); sym_near(v, P(i, j), tol, "density of the saved orbitals"); } } }
  MatD Pt = Pa + Pb; tb.compute_tei(true);
  MatD V; if (!finite) V = tb.nuclear(); else { auto *p1 = modelpotential::get_nuclear_model((modelpotential::nuclear_model_t)finite, Z1, 0.4), *p2 = modelpotential::get_nuclear_model((modelpotential::nuclear_model_t)finite, Z2, 0.3); diatomic::twodquad::TwoDGrid q(&tb, 4 * lmm.maxCoeff() + 12); V = q.model_potential(p1, p2); delete p1; delete p2; }
  double ref = trp(Pt, tb.kinetic()) + trp(Pt, V) + 0.5 * trp(Pt, tb.coulomb(Pt));
  if (Ez != 0) ref += Ez * trp(Pt, tb.dipole_z()); if (Qz != 0) ref += Qz / 3 * trp(Pt, tb.quadrupole_zz());
  if (Bz != 0) ref += trp(Pt, tb.Bz_field(Bz)) - 0.5 * Bz * (nea - neb);
  ref += Z1 * Z2 / Rb - Ez * (Z2 - Z1) * Rh - Qz * (Z1 + Z2) * Rh * Rh / 3;
  double kf = cfg("kf", 100) * 0.01; if (cfg("hyb", 0)) kf = xcs::hyb_a;
  if (kf != 0) ref += 0.5 * kf * (trp(Pa, tb.exchange(Pa)) + trp(Pb, tb.exchange(Pb)));
  if (xc) { diatomic::dftgrid::DFTGrid g(&tb, 3, 3); double Ex, Ne, Ek; MatD A, B; g.eval_Fxc(cfg("x", 0), VecD(), cfg("c", 0), VecD(), Pa, Pb, A, B, Ex, Ne, Ek, true, 1e-12); ref += Ex; }
  sym_near(E, ref, tol, "total energy of the saved density");
}
