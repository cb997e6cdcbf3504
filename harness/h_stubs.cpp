// Stand-ins linked with the real code: a small record of tabulated atoms (the
// repository generates the real table with a tool that needs the network) and
// polynomial exchange-correlation functionals in place of libxc.
#include "h_stubs.h"
#include <xc.h>
#include <cstring>
namespace helfem { namespace atomdb { namespace data {
  // two elements of three nodes: Nbf = 3 with both end functions removed
  extern const int max_Z, lmax, Nbf, nelem, nnodes, primbas, nquad, norbital; extern const int norb[][4], offset[][4];
  const int max_Z = 3, lmax = 3, Nbf = 3, nelem = 2, nnodes = 3, primbas = 4, nquad = 12, norbital = 5;
  double bval[] = {0.0, 0.8, 2.0};
  const int norb[][4] = {{1, 0, 0, 0}, {1, 1, 0, 0}, {1, 0, 0, 1}};
  const int offset[][4] = {{0, 1, 1, 1}, {1, 2, 3, 3}, {3, 4, 4, 4}};
  double occupations[] = {1.0, 1.5, 0.5, 2.0, 1.0};
  double coefficients[] = {0.7, 0.3, -0.2, 0.4, 0.9, 0.1, -0.3, 0.6, 0.5, 0.2, -0.8, 0.35, 0.55, 0.15, 0.45};
}}}
namespace helfem { namespace atomdb { namespace tab {
double *bval() { return data::bval; }
double *occ() { return data::occupations; }
double *coef() { return data::coefficients; }
int norb(int Z, int l) { return data::norb[Z - 1][l]; }
int offset(int Z, int l) { return data::offset[Z - 1][l]; }
}}}
// E = sum c * na^i nb^j saa^k sab^l sbb^m
static std::vector<XcTerm> terms[4];
static int family[4] = {XC_FAMILY_LDA, XC_FAMILY_GGA, XC_FAMILY_GGA, XC_FAMILY_MGGA};
std::vector<XcTerm> &xc_terms(int id) { return terms[id - 1]; }
static double pw(double x, int n) { double r = 1; for (int i = 0; i < n; i++) r *= x; return r; }
static double d(int id, const double *v, int a, int b) {
  double s = 0;
  for (auto &t : terms[id - 1]) {
    int e[5]; double c = t.c; for (int i = 0; i < 5; i++) e[i] = t.e[i];
    for (int q : {a, b}) if (q >= 0) { c *= e[q]; e[q]--; }
    bool z = false; for (int i = 0; i < 5; i++) if (e[i] < 0) z = true;
    if (z) continue;
    for (int i = 0; i < 5; i++) c *= pw(v[i], e[i]);
    s += c;
  }
  return s;
}
double xc_deriv(int id, const double *v, int a, int b) { return d(id, v, a, b); }
extern "C" {
int xc_func_init(xc_func_type *p, int id, int nspin) {
  memset(p, 0, sizeof *p);
  if (id < 1 || id > 4) return -1;
  static xc_func_info_type info[4];
  memset(&info[id - 1], 0, sizeof info[0]);
  const_cast<int &>(info[id - 1].number) = id; const_cast<int &>(info[id - 1].family) = family[id - 1];
  const_cast<int &>(info[id - 1].kind) = id == 2 ? XC_CORRELATION : XC_EXCHANGE;
  const_cast<int &>(info[id - 1].flags) = XC_FLAGS_HAVE_EXC | XC_FLAGS_HAVE_VXC | XC_FLAGS_HAVE_FXC | (id == 4 ? XC_FLAGS_NEEDS_LAPLACIAN : 0);
  p->info = &info[id - 1]; p->nspin = nspin;
  return 0;
}
void xc_func_end(xc_func_type *) {}
void xc_lda_vxc(const xc_func_type *p, size_t np, const double *rho, double *vrho) {
  for (size_t i = 0; i < np; i++) { double v[5] = {rho[2 * i], rho[2 * i + 1], 0, 0, 0}; vrho[2 * i] = d(p->info->number, v, 0, -1); vrho[2 * i + 1] = d(p->info->number, v, 1, -1); }
}
void xc_gga_vxc(const xc_func_type *p, size_t np, const double *rho, const double *sg, double *vrho, double *vs) {
  for (size_t i = 0; i < np; i++) {
    double v[5] = {rho[2 * i], rho[2 * i + 1], sg[3 * i], sg[3 * i + 1], sg[3 * i + 2]}; int id = p->info->number;
    for (int a = 0; a < 2; a++) vrho[2 * i + a] = d(id, v, a, -1);
    for (int a = 0; a < 3; a++) vs[3 * i + a] = d(id, v, 2 + a, -1);
  }
}
void xc_gga_fxc(const xc_func_type *p, size_t np, const double *rho, const double *sg, double *v2r, double *v2rs, double *v2s) {
  for (size_t i = 0; i < np; i++) {
    double v[5] = {rho[2 * i], rho[2 * i + 1], sg[3 * i], sg[3 * i + 1], sg[3 * i + 2]}; int id = p->info->number;
    int k = 0; for (int a = 0; a < 2; a++) for (int b = a; b < 2; b++) v2r[3 * i + k++] = d(id, v, a, b);
    k = 0; for (int a = 0; a < 2; a++) for (int b = 0; b < 3; b++) v2rs[6 * i + k++] = d(id, v, a, 2 + b);
    k = 0; for (int a = 0; a < 3; a++) for (int b = a; b < 3; b++) v2s[6 * i + k++] = d(id, v, 2 + a, 2 + b);
  }
}
}
