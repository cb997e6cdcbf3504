// Exchange-correlation energy, electron count, kinetic energy and potential
// matrices from their definitions on a set of points.
#pragma once
#include "hutil.h"
#include "h_xcstub.h"
struct Pt { double w; VecD a, b, la, lb; VecD ga[3], gb[3]; };  // Re/Im of functions, Laplacians, orthonormal gradient components
struct XcRef { double E = 0, N = 0, T = 0; MatD Ha, Hb; };
static double quadf(const MatD &P, const VecD &x, const VecD &y) { double s = 0; for (int i = 0; i < x.size(); i++) { if (x(i) == 0) continue; double t = 0; for (int j = 0; j < y.size(); j++) if (y(j) != 0) t += P(i, j) * y(j); s += x(i) * t; } return s; }
static XcRef xc_ref(const std::vector<Pt> &pts, const MatD &Pa, const MatD &Pb, const std::vector<std::pair<int, double>> &fs) {
  int N = Pa.rows(); XcRef R; R.Ha = R.Hb = MatD::Zero(N, N);
  bool g = false, kin = false, lap = false; for (auto &f : fs) { if (f.first <= 0) continue; if (!xcs::lda(f.first)) g = true; if (xcs::tau(f.first)) kin = true; if (xcs::lapl(f.first)) lap = true; }
  for (auto &p : pts) {
    xcs::Vars v{}; double gr[2][3] = {{0}};
    const MatD *P[2] = {&Pa, &Pb};
    for (int s = 0; s < 2; s++) {
      v[xcs::RA + s] = quadf(*P[s], p.a, p.a) + quadf(*P[s], p.b, p.b);
      double kd = 0;
      if (g) for (int c = 0; c < 3; c++) { gr[s][c] = 2 * (quadf(*P[s], p.a, p.ga[c]) + quadf(*P[s], p.b, p.gb[c])); if (kin || lap) kd += quadf(*P[s], p.ga[c], p.ga[c]) + quadf(*P[s], p.gb[c], p.gb[c]); }
      if (kin) v[xcs::TA + s] = 0.5 * kd;
      if (lap) v[xcs::LA + s] = 2 * kd + 2 * (quadf(*P[s], p.a, p.la) + quadf(*P[s], p.b, p.lb));
    }
    if (g) for (int c = 0; c < 3; c++) { v[xcs::SAA] += gr[0][c] * gr[0][c]; v[xcs::SAB] += gr[0][c] * gr[1][c]; v[xcs::SBB] += gr[1][c] * gr[1][c]; }
    double n = v[xcs::RA] + v[xcs::RB]; R.N += p.w * n; if (kin) R.T += p.w * (v[xcs::TA] + v[xcs::TB]);
    double dv[xcs::NV] = {0}, e = 0;
    for (auto &f : fs) { if (f.first <= 0) continue; if (xcs::has_exc(f.first)) e += xcs::eps(f.first, v, f.second); for (int k = 0; k < xcs::NV; k++) { if (k >= 2 && !g) break; if ((k == 5 || k == 6) && !lap) continue; if (k >= 7 && !kin) continue; dv[k] += xcs::de(f.first, v, k, f.second); } }
    R.E += p.w * n * e;
    for (int s = 0; s < 2; s++) {
      MatD &H = s ? R.Hb : R.Ha;
      double vr = p.w * dv[s], vt = 0.5 * p.w * dv[xcs::TA + s], vl = p.w * dv[xcs::LA + s], vg[3] = {0, 0, 0};
      if (g) for (int c = 0; c < 3; c++) vg[c] = p.w * (2 * dv[s ? xcs::SBB : xcs::SAA] * gr[s][c] + dv[xcs::SAB] * gr[1 - s][c]);
      for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) {
        double h = vr * (p.a(i) * p.a(j) + p.b(i) * p.b(j)), kk = 0;
        if (g) for (int c = 0; c < 3; c++) { h += vg[c] * (p.a(i) * p.ga[c](j) + p.ga[c](i) * p.a(j) + p.b(i) * p.gb[c](j) + p.gb[c](i) * p.b(j)); kk += p.ga[c](i) * p.ga[c](j) + p.gb[c](i) * p.gb[c](j); }
        if (kin) h += vt * kk;
        if (lap) h += vl * (2 * kk + p.a(i) * p.la(j) + p.la(i) * p.a(j) + p.b(i) * p.lb(j) + p.lb(i) * p.b(j));
        H(i, j) += h; if (i != j) H(j, i) += h;
      }
    }
  }
  return R;
}
// symbolic coefficients; spin-asymmetric terms included
static void xc_setup() {
  using namespace xcs; int nt = cfg("terms", 2);
  auto add = [&](int id, std::initializer_list<std::pair<int, int>> t, double init) { std::array<int, NV> e{}; for (auto &x : t) e[x.first] += x.second; std::vector<Term> &v = terms(id); v.push_back({sym_real(S("c%d_%d", id, (int)v.size()), -2, 2, init), e}); };
  for (int id : {1, 6, 9, 10, 11}) { add(id, {{RA, 1}}, 0.7); add(id, {{RB, 1}}, -0.4); if (nt > 2) add(id, {{RA, 1}, {RB, 1}}, 0.3); }
  for (int id : {2, 7, 8}) { add(id, {{RA, 1}}, 0.3); add(id, {{SAA, 1}}, 0.6); add(id, {{SAB, 1}}, -0.5); add(id, {{SBB, 1}}, 0.25); }
  add(3, {{RB, 1}}, 0.4); add(3, {{SAB, 1}}, 0.6); add(3, {{TA, 1}}, -0.7); add(3, {{TB, 1}}, 0.35);
  add(4, {{SAA, 1}}, 0.2); add(4, {{LA, 1}}, 0.5); add(4, {{LB, 1}}, -0.3); add(4, {{TA, 1}}, 0.8); add(4, {{TB, 1}}, 0.45);
  add(5, {{RA, 1}}, 0.9); add(5, {{LA, 1}}, -0.55); add(5, {{LB, 1}}, 0.65);
}
static MatD sym_density(const char *nm, int N, int mask = 0) {
  MatD P(N, N); for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) P(i, j) = P(j, i) = (mask && (i * N + j) % mask) ? 0.2 + 0.05 * i - 0.1 * j : sym_real(S((std::string(nm) + "%d_%d").c_str(), i, j), -1, 1, 0.4 + 0.1 * (i % 5) - 0.17 * j);
  return P;
}
