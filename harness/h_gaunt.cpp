// Gaunt coefficient table: symmetry-reduced storage and couplings.
#include "hutil.h"
#include "gaunt.h"
#include "wignernj.hpp"
#include <array>
#include <map>
using namespace helfem;
static std::map<std::array<int, 6>, double> tab;
// one symbolic value per orbit of the six column permutations and the sign flip
static double key(int l1, int m1, int l2, int m2, int l3, int m3) {
  if (m1 + m2 + m3 || (l1 + l2 + l3) % 2 || l3 < std::abs(l1 - l2) || l3 > l1 + l2 || std::abs(m1) > l1 || std::abs(m2) > l2 || std::abs(m3) > l3) return 0;
  std::array<int, 6> best{}; bool first = true;
  for (int sg = 1; sg >= -1; sg -= 2) {
    std::array<std::array<int, 2>, 3> c{{{l1, sg * m1}, {l2, sg * m2}, {l3, sg * m3}}};
    std::sort(c.begin(), c.end());
    std::array<int, 6> k{c[0][0], c[0][1], c[1][0], c[1][1], c[2][0], c[2][1]};
    if (first || k < best) best = k;
    first = false;
  }
  auto it = tab.find(best);
  if (it != tab.end()) return it->second;
  std::string n = "g"; for (int v : best) n += "_" + std::to_string(v);
  return tab[best] = sym_real(n, -2, 2, wignernj_exact(l1, m1, l2, m2, l3, m3));
}
typedef std::vector<double> Poly;
static Poly legp(int l) { Poly a{1}, b{0, 1}; if (l == 0) return a; for (int k = 1; k < l; k++) { Poly c(k + 2, 0.0); for (size_t i = 0; i < b.size(); i++) c[i + 1] += (2 * k + 1) * b[i] / (k + 1); for (size_t i = 0; i < a.size(); i++) c[i] -= k * a[i] / (k + 1); a = b; b = c; } return b; }
static double theta(int l, int m, double x) {  // normalised so that int theta^2 dx = 1/(2 pi)
  int a = std::abs(m); Poly p = legp(l);
  for (int i = 0; i < a; i++) { Poly d; for (size_t k = 1; k < p.size(); k++) d.push_back(k * p[k]); p = d; if (p.empty()) p.push_back(0); }
  double v = 0; for (int i = (int)p.size() - 1; i >= 0; i--) v = v * x + p[i];
  v *= std::sqrt((2 * l + 1) / (4 * M_PI) * fact(l - a) / fact(l + a)) * std::pow(1 - x * x, 0.5 * a);
  return m > 0 && (m & 1) ? -v : v;
}
void sym_main() {
  std::string what = cfgs("what", "table");
  int Lm = cfg("L", 3), lm = cfg("l", 3), lp = cfg("lp", 3), mc = cfg("mcap", -1);
  if (what == "table") {
    wignernj_hook = key;
    gaunt::Gaunt G(Lm, lm, lp, mc);
    int lall = std::max(Lm, std::max(lm, lp)), cap = mc < 0 ? lall : std::min(mc, lall);
    for (int L = -1; L <= Lm + 1; L++) for (int M = -L - 1; M <= L + 1; M++) for (int l = 0; l <= lm + 1; l++) for (int m = -l - 1; m <= l + 1; m++) for (int q = 0; q <= lp + 1; q++) {
      bool out = L < 0 || L > Lm || l > lm || q > lp || std::abs(M) > L || std::abs(m) > l;
      if (!out && (std::abs(M) > cap || std::abs(m) > cap)) {
        bool t = false; try { G.coeff(L, M, l, m, q); } catch (std::logic_error &) { t = true; }
        sym_assert(t, "coefficients outside the stored window are refused");
        continue;
      }
      double v = G.coeff(L, M, l, m, q), e = out || std::abs(M - m) > q ? 0 : (M & 1 ? -1 : 1) * key(L, -M, l, m, q, M - m);
      sym_near(v, e, 0, "table value");
    }
    for (int L = 0; L <= 2; L++) for (int M = -L; M <= L; M++) for (int l = 0; l <= 2; l++) for (int m = -l; m <= l; m++) for (int q = 0; q <= 2; q++) for (int mq = -q; mq <= q; mq++)
      sym_near(gaunt::gaunt_coefficient(L, M, l, m, q, mq), (M & 1 ? -1 : 1) * key(L, -M, l, m, q, mq), 0, "direct value");
  } else {  // angular couplings between Y_lj^m and a function sum_l c_l Y_l^m
    std::vector<double> gx, gw; ref_gauss(24, gx, gw);
    int big = Lm + 5; gaunt::Gaunt G(big, big, big, mc);
    std::vector<double> c; for (int l = 0; l <= Lm; l++) c.push_back(sym_real(S("c%d", l), -1, 1, 0.4 - 0.2 * l));
    for (int m = -std::min(Lm, cfg("mmax", 2)); m <= std::min(Lm, cfg("mmax", 2)); m++) for (int lj = std::abs(m); lj <= Lm; lj++) {
      double v[7] = {}, e[7] = {};
      for (int li = std::abs(m); li <= Lm; li++) {
        double k[7] = {G.cosine_coupling(lj, m, li, m), G.cosine2_coupling(lj, m, li, m), G.cosine3_coupling(lj, m, li, m), G.cosine4_coupling(lj, m, li, m), G.cosine5_coupling(lj, m, li, m), G.sine2_coupling(lj, m, li, m), G.cosine2_sine2_coupling(lj, m, li, m)};
        for (int i = 0; i < 7; i++) v[i] += c[li] * k[i];
        for (size_t g = 0; g < gx.size(); g++) {
          double x = gx[g], w = 2 * M_PI * gw[g] * theta(lj, m, x) * theta(li, m, x), f[7] = {x, x * x, x * x * x, x * x * x * x, x * x * x * x * x, 1 - x * x, x * x * (1 - x * x)};
          for (int i = 0; i < 7; i++) e[i] += c[li] * w * f[i];
        }
      }
      static const char *nm[7] = {"cos", "cos^2", "cos^3", "cos^4", "cos^5", "sin^2", "cos^2 sin^2"};
      for (int i = 0; i < 7; i++) sym_near(v[i], e[i], 1e-10, std::string("coupling through ") + nm[i]);
      for (int li = 0; li <= Lm; li++) for (int mi = -li; mi <= li; mi++) if (mi != m) sym_near(std::fabs(G.cosine_coupling(lj, m, li, mi)) + std::fabs(G.cosine2_coupling(lj, m, li, mi)) + std::fabs(G.cosine3_coupling(lj, m, li, mi)) + std::fabs(G.cosine4_coupling(lj, m, li, mi)) + std::fabs(G.cosine5_coupling(lj, m, li, mi)) + std::fabs(G.sine2_coupling(lj, m, li, mi)) + std::fabs(G.cosine2_sine2_coupling(lj, m, li, mi)), 0, 0, "no coupling between different m");
      // coupling with cos^2 times Y_L^M
      for (int L = 0; L <= cfg("LL", 3); L++) for (int M = -L; M <= L; M++) {
        double a = 0, b = 0, d = 0; int mi = m - M;
        for (int li = std::abs(mi); li <= Lm; li++) { a += c[li] * G.mod_coeff(lj, m, L, M, li, mi); d += c[li] * gaunt::modified_gaunt_coefficient(lj, m, L, M, li, mi); for (size_t g = 0; g < gx.size(); g++) b += c[li] * 2 * M_PI * gw[g] * gx[g] * gx[g] * theta(lj, m, gx[g]) * theta(L, M, gx[g]) * theta(li, mi, gx[g]); }
        sym_near(a, b, 1e-10, "coupling through cos^2 Y"); sym_near(d, b, 1e-10, "coupling through cos^2 Y, direct");
        for (int li = 0; li <= 2; li++) for (int mj = -li; mj <= li; mj++) if (m != M + mj) sym_near(G.mod_coeff(lj, m, L, M, li, mj), 0, 0, "no coupling between different m");
      }
    }
  }
}
