// Stand-in functionals replacing libxc.  The energy per particle is a
// polynomial (symbolic coefficients) of the spin densities, gradient products,
// Laplacians and kinetic energy densities; ids select what libxc would declare.
#pragma once
#include <vector>
#include <array>
namespace xcs {
// ra rb saa sab sbb la lb ta tb
enum { RA, RB, SAA, SAB, SBB, LA, LB, TA, TB, NV };
typedef std::array<double, NV> Vars;
struct Term { double c; std::array<int, NV> e; };
// 1 LDA, 2 GGA, 3 tau meta-GGA, 4 Laplacian+tau, 5 Laplacian only, 6 LDA, 7 GGA, 8 GGA without energy,
// 9 global hybrid LDA, 10 erfc hybrid LDA, 11 Yukawa hybrid LDA, 12 hybrid GGA xc, 13 kinetic LDA, 14 erfc hybrid meta-GGA
std::vector<Term> &terms(int id);
bool has_exc(int id); bool gga(int id); bool tau(int id); bool lapl(int id);
double eps(int id, const Vars &v, double scale = 1);           // energy per particle
double de(int id, const Vars &v, int a, double scale = 1);     // derivative of (ra+rb)*eps
double de2(int id, const Vars &v, int a, int b);           // second derivative of (ra+rb)*eps
inline bool lda(int id) { return id == 1 || id == 6 || (id >= 9 && id <= 11) || id == 13; }
extern double hyb_a, hyb_b, hyb_w;                             // exchange fractions and screening constant of the hybrids
extern double last_thr[16]; extern int ncalls[16];
}
