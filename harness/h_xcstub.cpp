#include "h_xcstub.h"
#include <xc.h>
#include <cstring>
#include <cmath>
namespace xcs {
static std::vector<Term> T[16];
double last_thr[16]; int ncalls[16];
std::vector<Term> &terms(int id) { return T[id]; }
static bool known(int id) { return id >= 1 && id <= 14; }
double hyb_a = 0.25, hyb_b = 0, hyb_w = 0;
bool has_exc(int id) { return id != 8; }
bool gga(int id) { return id == 2 || id == 7 || id == 8 || id == 12; }
bool tau(int id) { return id == 3 || id == 4 || id == 14; }
bool lapl(int id) { return id == 4 || id == 5; }
static double poly(int id, const Vars &v, int a, int b = -1) {
  double s = 0;
  for (auto &t : T[id]) {
    auto e = t.e; double c = t.c; if (a >= 0) { if (!e[a]) continue; c *= e[a]; e[a]--; } if (b >= 0) { if (!e[b]) continue; c *= e[b]; e[b]--; }
    for (int i = 0; i < NV; i++) for (int k = 0; k < e[i]; k++) c *= v[i];
    s += c;
  }
  return s;
}
double eps(int id, const Vars &v, double sc) { return sc * poly(id, v, -1); }
double de(int id, const Vars &v, int a, double sc) { return sc * ((v[RA] + v[RB]) * poly(id, v, a) + (a < 2 ? poly(id, v, -1) : 0)); }
double de2(int id, const Vars &v, int a, int b) { return (v[RA] + v[RB]) * poly(id, v, a, b) + (a < 2 ? poly(id, v, b) : 0) + (b < 2 ? poly(id, v, a) : 0); }
}
using namespace xcs;
static xc_func_info_type info[16];
struct Fn { const xc_func_type *p; double sc; }; static Fn fns[8]; static int nf = 0;
static double scale(const xc_func_type *p) { for (int i = 0; i < nf; i++) if (fns[i].p == p) return fns[i].sc; return 1; }
// one evaluation; null outputs are skipped
static void ev(const xc_func_type *p, size_t np, const double *rho, const double *sg, const double *lp, const double *tu, double *ex, double *vr, double *vs, double *vl, double *vt) {
  int id = p->info->number; double sc = scale(p); bool pol = p->nspin == XC_POLARIZED; ncalls[id]++; last_thr[id] = p->dens_threshold;
  if (ex && !has_exc(id)) throw "energy of a functional without energy";
  for (size_t i = 0; i < np; i++) {
    Vars v{};
    if (pol) { v[RA] = rho[2 * i]; v[RB] = rho[2 * i + 1]; if (sg) for (int k = 0; k < 3; k++) v[SAA + k] = sg[3 * i + k]; if (lp) { v[LA] = lp[2 * i]; v[LB] = lp[2 * i + 1]; } if (tu) { v[TA] = tu[2 * i]; v[TB] = tu[2 * i + 1]; } }
    else { v[RA] = v[RB] = 0.5 * rho[i]; if (sg) for (int k = 0; k < 3; k++) v[SAA + k] = 0.25 * sg[i]; if (lp) v[LA] = v[LB] = 0.5 * lp[i]; if (tu) v[TA] = v[TB] = 0.5 * tu[i]; }
    if (ex) ex[i] = eps(id, v, sc);
    if (!vr) continue;
    auto D = [&](int a) { return de(id, v, a, sc); };
    if (pol) { for (int k = 0; k < 2; k++) { vr[2 * i + k] = D(RA + k); if (vl && lp) vl[2 * i + k] = D(LA + k); if (vt && tu) vt[2 * i + k] = D(TA + k); } if (sg) for (int k = 0; k < 3; k++) vs[3 * i + k] = D(SAA + k); }
    else { vr[i] = 0.5 * (D(RA) + D(RB)); if (sg) vs[i] = 0.25 * (D(SAA) + D(SAB) + D(SBB)); if (vl && lp) vl[i] = 0.5 * (D(LA) + D(LB)); if (vt && tu) vt[i] = 0.5 * (D(TA) + D(TB)); }
  }
}
extern "C" {
int xc_func_init(xc_func_type *p, int id, int nspin) {
  if (!known(id)) return -1;
  memset(p, 0, sizeof *p); memset(&info[id], 0, sizeof info[0]);
  const_cast<int &>(info[id].number) = id; const_cast<int &>(info[id].family) = id == 14 ? XC_FAMILY_HYB_MGGA : tau(id) || lapl(id) ? XC_FAMILY_MGGA : id == 12 ? XC_FAMILY_HYB_GGA : gga(id) ? XC_FAMILY_GGA : id >= 9 && id <= 11 ? XC_FAMILY_HYB_LDA : XC_FAMILY_LDA;
  const_cast<int &>(info[id].kind) = id == 13 ? XC_KINETIC : id == 12 ? XC_EXCHANGE_CORRELATION : id >= 6 && id <= 8 ? XC_CORRELATION : XC_EXCHANGE;
  const_cast<int &>(info[id].flags) = (has_exc(id) ? XC_FLAGS_HAVE_EXC : 0) | XC_FLAGS_HAVE_VXC | (lapl(id) ? XC_FLAGS_NEEDS_LAPLACIAN : 0) | (tau(id) ? XC_FLAGS_NEEDS_TAU : 0) | (id == 10 || id == 14 ? XC_FLAGS_HYB_CAM : 0) | (id == 11 ? XC_FLAGS_HYB_CAMY : 0);
  p->info = &info[id]; p->nspin = nspin; p->dens_threshold = -1;
  return 0;
}
double xc_hyb_exx_coef(const xc_func_type *) { return hyb_a; }
void xc_hyb_cam_coef(const xc_func_type *, double *w, double *a, double *b) { *w = hyb_w; *a = hyb_a; *b = hyb_b; }
void xc_func_end(xc_func_type *p) { for (int i = 0; i < nf; i++) if (fns[i].p == p) fns[i] = fns[--nf]; }
void xc_func_set_dens_threshold(xc_func_type *p, double t) { p->dens_threshold = t; }
int xc_func_info_get_n_ext_params(const xc_func_info_type *) { return 1; }
void xc_func_set_ext_params(xc_func_type *p, const double *x) { fns[nf].p = p; fns[nf++].sc = x[0]; }
void xc_lda_exc_vxc(const xc_func_type *p, size_t n, const double *r, double *e, double *v) { ev(p, n, r, 0, 0, 0, e, v, 0, 0, 0); }
void xc_lda_exc(const xc_func_type *p, size_t n, const double *r, double *e) { ev(p, n, r, 0, 0, 0, e, 0, 0, 0, 0); }
void xc_lda_vxc(const xc_func_type *p, size_t n, const double *r, double *v) { ev(p, n, r, 0, 0, 0, 0, v, 0, 0, 0); }
void xc_gga_exc_vxc(const xc_func_type *p, size_t n, const double *r, const double *s, double *e, double *v, double *vs) { ev(p, n, r, s, 0, 0, e, v, vs, 0, 0); }
void xc_gga_exc(const xc_func_type *p, size_t n, const double *r, const double *s, double *e) { ev(p, n, r, s, 0, 0, e, 0, 0, 0, 0); }
void xc_gga_vxc(const xc_func_type *p, size_t n, const double *r, const double *s, double *v, double *vs) { ev(p, n, r, s, 0, 0, 0, v, vs, 0, 0); }
void xc_gga_fxc(const xc_func_type *p, size_t n, const double *rho, const double *sg, double *rr, double *rs, double *ss) {
  int id = p->info->number; if (p->nspin != XC_POLARIZED) throw "unpolarized second derivatives";
  for (size_t i = 0; i < n; i++) {
    Vars v{}; v[RA] = rho[2 * i]; v[RB] = rho[2 * i + 1]; for (int k = 0; k < 3; k++) v[SAA + k] = sg[3 * i + k];
    for (int a = 0, k = 0; a < 2; a++) for (int b = a; b < 2; b++) rr[3 * i + k++] = de2(id, v, a, b);
    for (int a = 0, k = 0; a < 2; a++) for (int b = 0; b < 3; b++) rs[6 * i + k++] = de2(id, v, a, SAA + b);
    for (int a = 0, k = 0; a < 3; a++) for (int b = a; b < 3; b++) ss[6 * i + k++] = de2(id, v, SAA + a, SAA + b);
  }
}
void xc_mgga_exc_vxc(const xc_func_type *p, size_t n, const double *r, const double *s, const double *l, const double *t, double *e, double *v, double *vs, double *vl, double *vt) { ev(p, n, r, s, l, t, e, v, vs, vl, vt); }
void xc_mgga_exc(const xc_func_type *p, size_t n, const double *r, const double *s, const double *l, const double *t, double *e) { ev(p, n, r, s, l, t, e, 0, 0, 0, 0); }
void xc_mgga_vxc(const xc_func_type *p, size_t n, const double *r, const double *s, const double *l, const double *t, double *v, double *vs, double *vl, double *vt) { ev(p, n, r, s, l, t, 0, v, vs, vl, vt); }
}
