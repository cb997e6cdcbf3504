// Symbolic runtime: expression DAG, shadow memory, path conditions, and the
// normaliser that turns every recorded condition/obligation into Laurent
// polynomials over input variables and function atoms.  The trace is written
// as JSON and decided by driver.py with SMT solvers.
#include "sym.h"
#include <algorithm>
#include <csignal>
#include <deque>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <malloc.h>
#include <map>
#include <quadmath.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
typedef __float128 Q;
typedef long double LD;

enum Op : unsigned {
  FADD = 1, FSUB, FMUL, FDIV, FREM, FNEG,
  IADD = 10, ISUB, IMUL, ISDIV, IUDIV, ISREM, IUREM, ISHL, ILSHR, IASHR, IAND, IOR, IXOR,
  C_TRUNC = 110, C_ZEXT, C_SEXT, C_FPTOSI, C_FPTOUI, C_SITOFP, C_UITOFP, C_FPTRUNC, C_FPEXT,
  N_CONST = 200, N_VAR, N_COPY, N_FN, N_POWI, N_IDIV, N_IMOD, N_ITE, N_ABS,
  B_EQ = 220, B_NE, B_LT, B_LE, B_GT, B_GE, B_AND, B_OR, B_NOT, B_XOR, B_CONST,
};
enum Sort { REAL, INT, BOOL };
struct Node {
  uint16_t op; uint8_t sort; uint8_t width;  // width: bits of the machine type
  uint32_t a, b;
  int32_t aux;
  LD fv; int64_t iv;
  double lo, hi;  // INT only
  float mag;      // REAL: size of the quantities it was computed from
};

extern "C" {
uint32_t __sym_argv[256];
void *__sym_argbv[256];
void *__sym_callee;
uint32_t __sym_ret[16];
void *__sym_retfn;
}

static std::vector<Node> N(1);
struct Key { uint32_t op, a, b; int32_t aux; uint32_t w; uint64_t v0, v1; bool operator==(const Key &o) const { return op == o.op && a == o.a && b == o.b && aux == o.aux && w == o.w && v0 == o.v0 && v1 == o.v1; } };
struct KH { size_t operator()(const Key &k) const { uint64_t h = k.op * 0x9E3779B97F4A7C15ull; auto m = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; }; m(k.a); m(k.b); m(k.aux); m(k.w); m(k.v0); m(k.v1); return h; } };
static std::unordered_map<Key, uint32_t, KH> cons;
static std::unordered_set<void *> sites;
static std::map<std::string, long> lost;
static std::vector<std::string> notes;
static long nops = 0, maxops = 40000000;
static bool giveup = false;
static std::string giveup_why;
static void note_site(void *p) { sites.insert(p); }

struct Var { std::string name; int sort; double lo, hi; double val; uint32_t node; };
static std::vector<Var> vars;
static std::map<std::string, std::string> inputs;
static std::vector<std::pair<std::string, std::string>> cfgv;
struct PathE { uint32_t node; bool taken; int kind; };  // kind 0 branch 1 concretise 2 domain/div 3 assume
static std::vector<PathE> path;
static std::unordered_map<uint32_t, int> pathseen;
struct Ass { std::string label; int kind; uint32_t a, b; LD va, vb; double tol; bool conc; size_t plen; };
static std::vector<Ass> asserts;
static std::vector<std::string> fnnames;
static int fnid(const std::string &s) { for (size_t i = 0; i < fnnames.size(); i++) if (fnnames[i] == s) return i; fnnames.push_back(s); return fnnames.size() - 1; }

struct TooBig {};
static bool dumping = false;
static void dump_and_exit(const char *status);

static uint32_t mk(unsigned op, int sort, int width, uint32_t a, uint32_t b, int aux, LD fv, int64_t iv, double lo = 0, double hi = 0) {
  Key k{op, a, b, aux, (uint32_t)width | (sort << 16), 0, 0};
  if (op == N_CONST) { if (sort == REAL) { memcpy(&k.v0, &fv, 8); uint16_t e; memcpy(&e, (char *)&fv + 8, 2); k.v1 = e; } else k.v0 = iv; }
  if (op == N_VAR) k.v0 = aux;
  auto it = cons.find(k);
  if (it != cons.end()) {
    Node &n = N[it->second];
    bool same = sort == REAL ? (n.fv == fv) : (n.iv == iv);
    if (same) return it->second;
  }
  if (N.size() > 60000000u || ++nops > maxops) { if (dumping) throw TooBig(); giveup = true; giveup_why = "node limit"; dump_and_exit("giveup"); }
  Node n{}; n.op = op; n.sort = sort; n.width = width; n.a = a; n.b = b; n.aux = aux; n.fv = fv; n.iv = iv; n.lo = lo; n.hi = hi;
  if (sort == REAL) {
    LD m = fabsl(fv), ma = a ? N[a].mag : 0, mb = b ? N[b].mag : 0;
    switch (op) {
      case FADD: case FSUB: m = std::max({m, ma, mb}); break;
      case FMUL: { LD va = fabsl(N[a].fv), vb = fabsl(N[b].fv); m = std::max({m, ma * std::max(vb, N[b].op == N_CONST && vb < 1e-12L ? (LD)1 : (LD)0), mb * std::max(va, N[a].op == N_CONST && va < 1e-12L ? (LD)1 : (LD)0)}); break; }
      case FDIV: { LD vb = fabsl(N[b].fv); if (vb > 0) m = std::max(m, ma / vb); break; }
      case FNEG: case N_COPY: case N_ABS: m = std::max(m, ma); break;
      case N_ITE: m = std::max({m, ma, mb}); break;
    }
    n.mag = (float)std::min(m, (LD)1e30);
  }
  N.push_back(n);
  cons[k] = N.size() - 1;
  return N.size() - 1;
}
static uint32_t kreal(LD v) { return mk(N_CONST, REAL, 64, 0, 0, 0, v, 0); }
static uint32_t kint(int64_t v, int w) { return mk(N_CONST, INT, w, 0, 0, 0, 0, v, (double)v, (double)v); }
static bool finite(LD x) { return x - x == 0; }

static long nround = 0;
static bool noisy(uint32_t a) { return N[a].sort == REAL && N[a].op != N_CONST && N[a].op != N_VAR && N[a].mag > 0 && fabsl(N[a].fv) <= 1e-11L * N[a].mag; }
static void add_path(uint32_t b, bool taken, int kind) {
  // comparisons between quantities at the rounding level (convergence tests of
  // quadrature refinement loops) are taken as on the concrete run
  if (kind == 0 && N[b].op >= B_EQ && N[b].op <= B_GE && (noisy(N[b].a) || noisy(N[b].b))) { nround++; return; }

  auto it = pathseen.find(b);
  if (it != pathseen.end()) return;
  pathseen[b] = 1;
  if (path.size() > 20000) { if (dumping) throw TooBig(); giveup = true; giveup_why = "path too long"; dump_and_exit("giveup"); }
  path.push_back({b, taken, kind});
}
static bool bval(uint32_t b) { return N[b].iv; }
static uint32_t mkcmp(int op, uint32_t a, uint32_t b, bool v) { return mk(op, BOOL, 1, a, b, 0, 0, v); }
static LD nval(uint32_t a) { return N[a].sort == REAL ? N[a].fv : (LD)N[a].iv; }
static uint32_t cmpc(int op, uint32_t a, LD c) {
  LD v = nval(a); bool r = op == B_EQ ? v == c : op == B_NE ? v != c : op == B_LT ? v < c : op == B_LE ? v <= c : op == B_GT ? v > c : v >= c;
  return mkcmp(op, a, kreal(c), r);
}
static void fork_cmp(int op, uint32_t a, LD c, int kind) { uint32_t b = cmpc(op, a, c); add_path(b, bval(b), kind); }
// a sum of squares and non-negative constants, by structure
static bool sumsq(uint32_t id, int depth = 0) {
  if (!id) return true; const Node &n = N[id];
  if (n.op == FMUL && n.a == n.b) return true;
  if (n.op == FADD && depth < 4096) return sumsq(n.b, depth + 1) && sumsq(n.a, depth + 1);
  return false;
}
static void conc_int(uint32_t id) { if (N[id].sort == BOOL) { add_path(id, bval(id), 1); return; } uint32_t b = mkcmp(B_EQ, id, kint(N[id].iv, 64), true); add_path(b, true, 1); }

// ---- shadow memory -------------------------------------------------------
static uint32_t **leafs;  // indexed by addr>>16
static uint32_t *zeroleaf;
static const size_t NLEAF = 1ull << 31;
static inline uint32_t *leaf(uintptr_t a, bool create) {
  uintptr_t i = a >> 16;
  if (i >= NLEAF) return nullptr;
  uint32_t *p = leafs ? leafs[i] : nullptr;
  if (!p && create) {
    if (!leafs) return nullptr;
    p = (uint32_t *)mmap(nullptr, 65536 * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    leafs[i] = p;
  }
  return p;
}
static void initmem() {
  if (leafs) return;
  leafs = (uint32_t **)mmap(nullptr, NLEAF * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (leafs == MAP_FAILED) { fprintf(stderr, "shadow map failed\n"); _Exit(9); }
}
static inline uint32_t shget(uintptr_t a) { uint32_t *p = leaf(a, false); return p ? p[a & 65535] : 0; }
static inline void shset(uintptr_t a, uint32_t id) { uint32_t *p = leaf(a, id != 0); if (p) p[a & 65535] = id; }

extern "C" {
uint32_t __sym_load(void *ptr, uint32_t size) {
  uint32_t id = shget((uintptr_t)ptr);
  if (!id) return 0;
  Node &n = N[id];
  if (n.sort == REAL) {
    if (n.width == 64 && size == 8) { double d; memcpy(&d, ptr, 8); if ((LD)d == n.fv) return id; }
    else if (n.width == 32 && size == 4) { float d; memcpy(&d, ptr, 4); if ((LD)d == n.fv) return id; }
    else if (n.width == 80 && size >= 10) { LD d = 0; memcpy(&d, ptr, 10); if (d == n.fv) return id; }
    return 0;
  }
  int64_t v = 0; int w = n.sort == BOOL ? 1 : n.width;
  if (w == 1) { if (size != 1) return 0; v = *(uint8_t *)ptr & 1; return v == n.iv ? id : 0; }
  if (size * 8 != (uint32_t)w) return 0;
  switch (size) { case 1: v = *(int8_t *)ptr; break; case 2: { int16_t t; memcpy(&t, ptr, 2); v = t; break; } case 4: { int32_t t; memcpy(&t, ptr, 4); v = t; break; } case 8: memcpy(&v, ptr, 8); break; default: return 0; }
  return v == n.iv ? id : 0;
}
void __sym_store(void *ptr, uint32_t id, uint32_t size) { (void)size; shset((uintptr_t)ptr, id); }
void __sym_memset(void *ptr, uint64_t n) {
  uintptr_t a = (uintptr_t)ptr, e = a + n;
  while (a < e) {
    uintptr_t ce = std::min(e, (a | 65535) + 1);
    if (uint32_t *p = leaf(a, false)) memset(p + (a & 65535), 0, (ce - a) * 4);
    a = ce;
  }
}
void __sym_memcpy(void *d, void *s, uint64_t n) {
  uintptr_t a = (uintptr_t)d, b = (uintptr_t)s;
  if (a == b || n == 0) return;
  // anything symbolic in the source?
  bool any = false;
  for (uintptr_t x = b; x < b + n; x = (x | 65535) + 1) if (leaf(x, false)) any = true;
  if (!any) { __sym_memset(d, n); return; }
  static std::vector<uint32_t> tmp;
  tmp.resize(n);
  for (uint64_t i = 0; i < n; i++) tmp[i] = shget(b + i);
  for (uint64_t i = 0; i < n; i++) shset(a + i, tmp[i]);
}

// ---- operations ----------------------------------------------------------
static uint32_t asreal(uint32_t s, LD v) { return s ? s : kreal(v); }
static uint32_t constreal(LD v) { return kreal(v); }

uint32_t __sym_fop(uint32_t op, uint32_t sa, uint32_t sb, LD a, LD b, LD r, uint32_t w) {
  note_site(__builtin_return_address(0));
  if (sa && N[sa].sort != REAL) { lost["int-as-real"]++; sa = 0; }
  if (sb && N[sb].sort != REAL) { lost["int-as-real"]++; sb = 0; }
  if (!sa && !sb) return 0;
  if (op == FDIV && sb) { fork_cmp(B_NE, sb, 0, 2); }
  if (!finite(r) || !finite(a) || !finite(b)) return 0;
  switch (op) {
    case FADD: if (!sa && a == 0) return r == b && N[sb].width == w ? sb : mk(N_COPY, REAL, w, sb, 0, 0, r, 0); if (!sb && b == 0) return N[sa].width == w && r == a ? sa : mk(N_COPY, REAL, w, sa, 0, 0, r, 0); break;
    case FSUB: if (!sb && b == 0) return sa; if (sa == sb) return 0; break;
    case FMUL: if ((!sa && a == 0) || (!sb && b == 0)) return 0; if (!sa && a == 1) return sb; if (!sb && b == 1) return sa; break;
    case FDIV: if (!sa && a == 0) return 0; if (!sb && b == 1) return sa; if (sa == sb) return 0; break;
    case FREM: {  // a - b*trunc(a/b): quotient pinned
      LD q = truncl(a / b);
      uint32_t ra = asreal(sa, a), rb = asreal(sb, b);
      uint32_t quo = mk(FDIV, REAL, 64, ra, rb, 0, a / b, 0);
      if (q > 0) { fork_cmp(B_GE, quo, q, 1); fork_cmp(B_LT, quo, q + 1, 1); }
      else if (q < 0) { fork_cmp(B_LE, quo, q, 1); fork_cmp(B_GT, quo, q - 1, 1); }
      else { fork_cmp(B_LT, quo, 1, 1); fork_cmp(B_GT, quo, -1, 1); }
      uint32_t t = mk(FMUL, REAL, 64, rb, kreal(q), 0, b * q, 0);
      return mk(FSUB, REAL, w, ra, t, 0, r, 0);
    }
    case FNEG: return mk(FNEG, REAL, w, sa, 0, 0, r, 0);
  }
  uint32_t x = sa ? sa : constreal(a), y = sb ? sb : constreal(b);
  if ((op == FADD || op == FMUL) && x > y) std::swap(x, y);
  return mk(op, REAL, w, x, y, 0, r, 0);
}
static const int fmap[16] = {0, B_EQ, B_GT, B_GE, B_LT, B_LE, B_NE, 0, 0, B_EQ, B_GT, B_GE, B_LT, B_LE, B_NE, 0};
uint32_t __sym_fcmp(uint32_t pred, uint32_t sa, uint32_t sb, LD a, LD b, uint32_t r) {
  note_site(__builtin_return_address(0));
  if (!finite(a) || !finite(b)) return 0;
  int op = fmap[pred & 15];
  if (!op) return 0;
  if (sa && N[sa].sort != REAL) sa = 0;
  if (sb && N[sb].sort != REAL) sb = 0;
  if (!sa && !sb) return 0;
  if (sa == sb) return 0;
  return mkcmp(op, asreal(sa, a), asreal(sb, b), r & 1);
}
static uint32_t uns(uint32_t id, int w) {  // value as unsigned
  if (N[id].lo >= 0) return id;
  fork_cmp(B_GE, id, 0, 1);
  if (N[id].iv >= 0) { return id; }
  LD m = ldexpl(1, w);
  Node &n = N[id];
  double lo = n.lo + (double)m, hi = -1 + (double)m;
  int64_t iv = n.iv;
  if (w < 64) iv = n.iv + (1ll << w);
  uint32_t k = mk(N_CONST, REAL, 80, 0, 0, 0, m, 0);
  uint32_t r = mk(IADD, INT, 64, id, k, 0, 0, iv, lo, hi);
  return r;
}
static uint32_t asint(uint32_t s, int64_t v, int w) { return s ? s : kint(v, w); }
uint32_t __sym_icmp(uint32_t pred, uint32_t sa, uint32_t sb, int64_t a, int64_t b, uint32_t r, uint32_t w) {
  note_site(__builtin_return_address(0));
  r &= 1;
  if ((sa && N[sa].sort == REAL) || (sb && N[sb].sort == REAL)) {
    if (sa && !sb && pred == 40 && b == 0) return mkcmp(B_LT, sa, kreal(0), r);
    if (sa && !sb && pred == 38 && b == -1) return mkcmp(B_GE, sa, kreal(0), r);
    lost["bits-of-real"]++;
    return 0;
  }
  if (w == 1) {
    if (pred != 32 && pred != 33) { lost["bool-order"]++; return 0; }
    if (!sa || !sb) {
      uint32_t s = sa ? sa : sb; int64_t c = (sa ? b : a) & 1;
      bool same = pred == 32 ? c : !c;
      return same ? s : mk(B_NOT, BOOL, 1, s, 0, 0, 0, r);
    }
    uint32_t x = mk(B_XOR, BOOL, 1, sa, sb, 0, 0, bval(sa) ^ bval(sb));
    return pred == 33 ? x : mk(B_NOT, BOOL, 1, x, 0, 0, 0, r);
  }
  if (sa && N[sa].sort != INT) { return 0; }
  if (sb && N[sb].sort != INT) { return 0; }
  if (sa == sb) return 0;
  uint32_t x = asint(sa, a, w), y = asint(sb, b, w);
  int op = 0;
  switch (pred) {
    case 32: op = B_EQ; break; case 33: op = B_NE; break;
    case 34: op = B_GT; break; case 35: op = B_GE; break; case 36: op = B_LT; break; case 37: op = B_LE; break;
    case 38: op = B_GT; break; case 39: op = B_GE; break; case 40: op = B_LT; break; case 41: op = B_LE; break;
  }
  if (pred >= 34 && pred <= 37) { x = uns(x, w); y = uns(y, w); }
  // decided by range?
  double xl = N[x].lo, xh = N[x].hi, yl = N[y].lo, yh = N[y].hi;
  if (xh < yl || xl > yh) return 0;
  return mkcmp(op, x, y, r);
}
static bool fits(double lo, double hi, int w) { double m = ldexp(1.0, w - 1); return lo >= -m && hi < m; }
uint32_t __sym_iop(uint32_t op, uint32_t sa, uint32_t sb, int64_t a, int64_t b, int64_t r, uint32_t w) {
  note_site(__builtin_return_address(0));
  if ((sa && N[sa].sort == REAL) || (sb && N[sb].sort == REAL)) {
    lost["bits-of-real"]++;
    return 0;
  }
  if (w == 1) {
    if (op == IAND || op == IOR || op == IXOR) {
      r &= 1;
      if (!sa || !sb) {
        uint32_t s = sa ? sa : sb; bool c = (sa ? b : a) & 1;
        if (op == IAND) return c ? s : 0;
        if (op == IOR) return c ? 0 : s;
        return c ? mk(B_NOT, BOOL, 1, s, 0, 0, 0, r) : s;
      }
      return mk(op == IAND ? B_AND : op == IOR ? B_OR : B_XOR, BOOL, 1, sa, sb, 0, 0, r);
    }
    if (sa) conc_int(sa); if (sb) conc_int(sb);
    return 0;
  }
  if (sa && N[sa].sort != INT) { conc_int(sa); sa = 0; }
  if (sb && N[sb].sort != INT) { conc_int(sb); sb = 0; }
  if (!sa && !sb) return 0;
  uint32_t x = asint(sa, a, w), y = asint(sb, b, w);
  double xl = N[x].lo, xh = N[x].hi, yl = N[y].lo, yh = N[y].hi;
  auto conc = [&]() -> uint32_t { if (sa) conc_int(sa); if (sb) conc_int(sb); return 0; };
  switch (op) {
    case IADD: { if (!sb && b == 0) return sa; double lo = xl + yl, hi = xh + yh; if (!fits(lo, hi, w)) return conc(); return mk(IADD, INT, w, x, y, 0, 0, r, lo, hi); }
    case ISUB: { if (!sb && b == 0) return sa; if (sa == sb) return 0; double lo = xl - yh, hi = xh - yl; if (!fits(lo, hi, w)) return conc(); return mk(ISUB, INT, w, x, y, 0, 0, r, lo, hi); }
    case ISHL: if (!sb && b >= 0 && b < 62) { y = kint(1ll << b, w); yl = yh = (double)(1ll << b); } else return conc(); /* fallthrough */
    case IMUL: { double c[4] = {xl * yl, xl * yh, xh * yl, xh * yh}; double lo = *std::min_element(c, c + 4), hi = *std::max_element(c, c + 4); if (!fits(lo, hi, w)) return conc(); if (lo == 0 && hi == 0) return 0; return mk(IMUL, INT, w, x, y, 0, 0, r, lo, hi); }
    case IXOR: if (!sb && b == -1) return mk(ISUB, INT, w, kint(-1, w), x, 0, 0, r, -1 - xh, -1 - xl); return conc();
    case IUDIV: case ISDIV: case ISREM: case IUREM: {
      if (sb || b <= 0) return conc();
      if (op == IUDIV || op == IUREM) { x = uns(x, w); }
      else if (xl < 0) { fork_cmp(B_GE, x, 0, 1); if (N[x].iv < 0) {  // trunc toward zero on the negative side
          uint32_t neg = mk(ISUB, INT, w, kint(0, w), x, 0, 0, -N[x].iv, -std::min(xh, -1.0), -xl);
          double q = b;
          if (op == ISDIV) { uint32_t d = mk(N_IDIV, INT, w, neg, 0, b, 0, (-N[x].iv) / b, 0, floor(-xl / q)); return mk(ISUB, INT, w, kint(0, w), d, 0, 0, r, -floor(-xl / q), 0); }
          uint32_t d = mk(N_IMOD, INT, w, neg, 0, b, 0, (-N[x].iv) % b, 0, q - 1); return mk(ISUB, INT, w, kint(0, w), d, 0, 0, r, -(q - 1), 0);
        } xl = 0; }
      if (b > 0x7fffffff) return conc();
      if (op == ISDIV || op == IUDIV) return mk(N_IDIV, INT, w, x, 0, b, 0, r, floor(std::max(0.0, xl) / b), floor(xh / b));
      return mk(N_IMOD, INT, w, x, 0, b, 0, r, 0, b - 1.0);
    }
    case IASHR: case ILSHR: if (!sb && b >= 0 && b < 31) { if (xl < 0) { fork_cmp(B_GE, x, 0, 1); if (N[x].iv < 0) return conc(); xl = 0; } return mk(N_IDIV, INT, w, x, 0, 1 << b, 0, r, floor(std::max(0.0, xl) / (1 << b)), floor(xh / (1 << b))); } return conc();
    case IAND: if (!sb && b >= 0 && ((b + 1) & b) == 0 && b < 0x7fffffff) { if (xl < 0) { fork_cmp(B_GE, x, 0, 1); if (N[x].iv < 0) return conc(); xl = 0; } if (xh <= (double)b) return sa; return mk(N_IMOD, INT, w, x, 0, (int)b + 1, 0, r, 0, (double)b); } return conc();
    default: return conc();
  }
}
static uint32_t pin_real(uint32_t sa, LD a, LD k, int mode) {  // mode 0 trunc,1 floor,2 ceil,3 round-half-away,4 rint
  if (mode == 0) {
    if (k > 0) { fork_cmp(B_GE, sa, k, 1); fork_cmp(B_LT, sa, k + 1, 1); }
    else if (k < 0) { fork_cmp(B_LE, sa, k, 1); fork_cmp(B_GT, sa, k - 1, 1); }
    else { fork_cmp(B_LT, sa, 1, 1); fork_cmp(B_GT, sa, -1, 1); }
  } else if (mode == 1) { fork_cmp(B_GE, sa, k, 1); fork_cmp(B_LT, sa, k + 1, 1); }
  else if (mode == 2) { fork_cmp(B_LE, sa, k, 1); fork_cmp(B_GT, sa, k - 1, 1); }
  else { fork_cmp(B_GE, sa, k - 0.5L, 1); fork_cmp(B_LE, sa, k + 0.5L, 1); }
  return 0;
}
uint32_t __sym_cast(uint32_t op, uint32_t sa, LD fa, int64_t ia, LD fr, int64_t ir, uint32_t wf, uint32_t wt) {
  note_site(__builtin_return_address(0));
  int s = N[sa].sort;
  switch (op) {
    case C_FPTRUNC: case C_FPEXT: if (s != REAL || !finite(fr)) return 0; return mk(N_COPY, REAL, wt, sa, 0, 0, fr, 0);
    case C_FPTOSI: case C_FPTOUI: if (s != REAL) return 0; pin_real(sa, fa, truncl(fa), 0); return 0;
    case C_SITOFP: case C_UITOFP:
      if (s == BOOL) { conc_int(sa); return 0; }
      if (s != INT) return 0;
      if (op == C_UITOFP) sa = uns(sa, wf);
      return mk(C_SITOFP, REAL, wt, sa, 0, 0, fr, 0);
    case C_TRUNC:
      if (s == REAL) { lost["bits-of-real"]++; return 0; }
      if (s == BOOL) return 0;
      if (wt == 1) {
        uint32_t m = N[sa].lo >= 0 ? sa : 0;
        if (!m) { conc_int(sa); return 0; }
        if (N[sa].hi <= 1) return mkcmp(B_NE, sa, kint(0, wf), ir & 1);
        uint32_t md = mk(N_IMOD, INT, wf, sa, 0, 2, 0, ia & 1, 0, 1);
        return mkcmp(B_NE, md, kint(0, wf), ir & 1);
      }
      if (fits(N[sa].lo, N[sa].hi, wt)) return mk(N_COPY, INT, wt, sa, 0, 0, 0, ir, N[sa].lo, N[sa].hi);
      conc_int(sa); return 0;
    case C_ZEXT:
      if (s == REAL) { lost["bits-of-real"]++; return 0; }
      if (s == BOOL) { conc_int(sa); return 0; }
      sa = uns(sa, wf);
      return mk(N_COPY, INT, wt, sa, 0, 0, 0, ir, N[sa].lo, N[sa].hi);
    case C_SEXT:
      if (s == REAL) { lost["bits-of-real"]++; return 0; }
      if (s == BOOL) { conc_int(sa); return 0; }
      return mk(N_COPY, INT, wt, sa, 0, 0, 0, ir, N[sa].lo, N[sa].hi);
  }
  return 0;
}
uint32_t __sym_iintr(const char *nm, uint32_t sa, uint32_t sb, int64_t a, int64_t b, int64_t r, uint32_t w) {
  note_site(__builtin_return_address(0));
  std::string n = nm;
  if (n == "abs") { if (N[sa].sort != INT) { conc_int(sa); return 0; } if (N[sa].lo >= 0) return sa; fork_cmp(B_GE, sa, 0, 0); if (N[sa].iv >= 0) return sa; return mk(ISUB, INT, w, kint(0, w), sa, 0, 0, r, std::max(0.0, -N[sa].hi), -N[sa].lo); }
  if ((sa && N[sa].sort != INT) || (sb && N[sb].sort != INT)) { if (sa) conc_int(sa); if (sb) conc_int(sb); return 0; }
  uint32_t x = asint(sa, a, w), y = asint(sb, b, w);
  if (n == "umax" || n == "umin" || n == "usub.sat") { x = uns(x, w); y = uns(y, w); }
  bool ge = N[x].iv >= N[y].iv;
  uint32_t c = mkcmp(B_GE, x, y, ge);
  if (!(N[x].lo >= N[y].hi) && !(N[x].hi < N[y].lo)) add_path(c, ge, 0);
  if (n == "usub.sat") { if (!ge) return 0; return mk(ISUB, INT, w, x, y, 0, 0, r, 0, N[x].hi - N[y].lo); }
  bool mx = n == "smax" || n == "umax";
  return (ge == mx) ? (sa) : (sb);
}
void __sym_branch(uint32_t s, uint32_t taken) { note_site(__builtin_return_address(0)); if (N[s].sort != BOOL) { conc_int(s); return; } add_path(s, taken & 1, 0); }
void __sym_switch(uint32_t s, int64_t v) { conc_int(s); }
void __sym_conc(uint32_t s, int64_t v) { note_site(__builtin_return_address(0)); if (N[s].sort == REAL) { lost["real-index"]++; return; } conc_int(s); }
void __sym_lost(const char *name, uint32_t ids) { lost[name]++; }

uint32_t __sym_fselect(uint32_t sc, uint32_t taken, uint32_t x, uint32_t y, LD a, LD b, uint32_t w) {
  note_site(__builtin_return_address(0));
  taken &= 1;
  if (N[sc].sort != BOOL) { conc_int(sc); return taken ? x : y; }
  if ((x && N[x].sort != REAL) || (y && N[y].sort != REAL) || !finite(a) || !finite(b)) { add_path(sc, taken, 0); return taken ? x : y; }
  if (x == y && (x || a == b)) return x;
  return mk(N_ITE, REAL, w, asreal(x, a), asreal(y, b), sc, taken ? a : b, 0);
}
static uint32_t fn1(const char *f, uint32_t a, LD r, int w) { return mk(N_FN, REAL, w, a, 0, fnid(f), r, 0); }
static uint32_t rb(unsigned op, uint32_t a, uint32_t b, LD v) { return mk(op, REAL, 64, a, b, 0, v, 0); }
uint32_t __sym_libm(const char *nm, uint32_t sa, uint32_t sb, uint32_t sc, LD a, LD b, LD c, LD r, uint32_t w) {
  note_site(__builtin_return_address(0));
  std::string n = nm;
  bool intres = w >= 1000;
  if (!finite(a) || !finite(b) || !finite(c)) return 0;
  auto toreal = [&](uint32_t s) -> uint32_t { if (s && N[s].sort == INT) return mk(C_SITOFP, REAL, 64, s, 0, 0, (LD)N[s].iv, 0); if (s && N[s].sort == BOOL) { conc_int(s); return 0; } return s; };
  sa = toreal(sa); sb = toreal(sb); sc = toreal(sc);
  if (!sa && !sb && !sc) return 0;
  uint32_t x = asreal(sa, a);
  auto copy = [&](uint32_t id) -> uint32_t { if (!id) return 0; if (N[id].sort == REAL && N[id].width == w && N[id].fv == r) return id; if (N[id].op == N_CONST) return 0; return mk(N_COPY, REAL, w, id, 0, 0, r, 0); };
  if (n == "fabs") return mk(N_ABS, REAL, w, sa, 0, 0, r, 0);
  if (n == "fmin" || n == "fmax") { uint32_t y = asreal(sb, b); uint32_t cc = mkcmp(B_LE, x, y, a <= b); return n == "fmin" ? mk(N_ITE, REAL, w, x, y, cc, r, 0) : mk(N_ITE, REAL, w, y, x, cc, r, 0); }
  if (n == "fma") {
    uint32_t y = asreal(sb, b), z = asreal(sc, c);
    if (!finite(r)) return 0;
    return mk(FADD, REAL, w, rb(FMUL, x, y, a * b), z, 0, r, 0);
  }
  if (n == "copysign") { if (sb) fork_cmp(B_GE, sb, 0, 0); if (!sa) return 0; fork_cmp(B_GE, sa, 0, 0); return r == a ? copy(sa) : mk(FNEG, REAL, w, sa, 0, 0, r, 0); }
  if (n == "fdim") { uint32_t y = asreal(sb, b); uint32_t cc = mkcmp(B_GT, x, y, a > b); add_path(cc, a > b, 0); return a > b ? mk(FSUB, REAL, w, x, y, 0, r, 0) : 0; }
  if (n == "floor") { pin_real(sa, a, r, 1); return 0; }
  if (n == "ceil") { pin_real(sa, a, r, 2); return 0; }
  if (n == "trunc") { pin_real(sa, a, r, 0); return 0; }
  if (n == "round" || n == "rint" || n == "nearbyint" || n == "lround" || n == "lrint" || n == "llround" || n == "llrint") { pin_real(sa, a, r, 3); return 0; }
  if (intres) { lost[n]++; return 0; }
  if (n == "fmod") return __sym_fop(FREM, sa, sb, a, b, r, w);
  if (n == "remainder") { lost[n]++; return 0; }
  if (n == "ldexp" || n == "scalbn" || n == "scalbln") { if (sb || !sa) { lost[n]++; return 0; } return mk(FMUL, REAL, w, x, kreal(ldexpl(1, (int)b)), 0, r, 0); }
  if (n == "hypot") { uint32_t y = asreal(sb, b); uint32_t s2 = rb(FADD, rb(FMUL, x, x, a * a), rb(FMUL, y, y, b * b), a * a + b * b); return fn1("sqrt", s2, r, w); }
  if (n == "sqrt") { if (!sumsq(sa)) fork_cmp(B_GE, sa, 0, 2); if (!finite(r)) return 0; return fn1("sqrt", sa, r, w); }
  if (n == "log" || n == "log2" || n == "log10") { fork_cmp(B_GT, sa, 0, 2); if (!finite(r)) return 0; uint32_t l = fn1("log", sa, logl(a), w); if (n == "log") return N[l].fv == r ? l : copy(l); LD k = n == "log2" ? 1 / logl(2) : 1 / logl(10); return mk(FMUL, REAL, w, l, kreal(k), 0, r, 0); }
  if (n == "log1p") { uint32_t p = rb(FADD, sa, kreal(1), 1 + a); fork_cmp(B_GT, p, 0, 2); if (!finite(r)) return 0; return fn1("log", p, r, w); }
  if (n == "exp") { if (!finite(r)) return 0; return fn1("exp", sa, r, w); }
  if (n == "exp2") { if (!finite(r)) return 0; return fn1("exp", rb(FMUL, sa, kreal(logl(2)), a * logl(2)), r, w); }
  if (n == "expm1") { if (!finite(r)) return 0; return mk(FSUB, REAL, w, fn1("exp", sa, expl(a), 64), kreal(1), 0, r, 0); }
  if (n == "sinh" || n == "cosh" || n == "tanh") {
    if (!finite(r)) return 0;
    uint32_t e = fn1("exp", sa, expl(a), 80), em = fn1("exp", mk(FNEG, REAL, 64, sa, 0, 0, -a, 0), expl(-a), 80);
    uint32_t s = rb(FSUB, e, em, expl(a) - expl(-a)), cc = rb(FADD, e, em, expl(a) + expl(-a));
    if (n == "tanh") return mk(FDIV, REAL, w, s, cc, 0, r, 0);
    return mk(FMUL, REAL, w, n == "sinh" ? s : cc, kreal(0.5L), 0, r, 0);
  }
  if (n == "acosh" || n == "asinh") {  // log(x + sqrt(x^2 -+ 1))
    if (n == "acosh") fork_cmp(B_GE, sa, 1, 2);
    if (!finite(r)) return 0;
    LD k = n == "acosh" ? -1 : 1;
    uint32_t s2 = rb(FADD, rb(FMUL, sa, sa, a * a), kreal(k), a * a + k);
    LD sv = sqrtl(std::max((LD)0, a * a + k));
    uint32_t s = fn1("sqrt", s2, sv, 80);
    return fn1("log", rb(FADD, sa, s, a + sv), r, w);
  }
  if (n == "atanh") { // 1/2 log((1+x)/(1-x))
    if (!finite(r)) return 0;
    uint32_t p = rb(FADD, sa, kreal(1), 1 + a), q = rb(FSUB, kreal(1), sa, 1 - a);
    fork_cmp(B_GT, p, 0, 2); fork_cmp(B_GT, q, 0, 2);
    uint32_t l = rb(FSUB, fn1("log", p, logl(1 + a), 80), fn1("log", q, logl(1 - a), 80), 2 * r);
    return mk(FMUL, REAL, w, l, kreal(0.5L), 0, r, 0);
  }
  if (n == "erfc") { if (!finite(r)) return 0; return mk(FSUB, REAL, w, kreal(1), fn1("erf", sa, erfl(a), 80), 0, r, 0); }
  if (n == "tan") { if (!finite(r)) return 0; return mk(FDIV, REAL, w, fn1("sin", sa, sinl(a), 80), fn1("cos", sa, cosl(a), 80), 0, r, 0); }
  if (n == "asin" || n == "acos") { fork_cmp(B_GE, sa, -1, 2); fork_cmp(B_LE, sa, 1, 2); if (!finite(r)) return 0; return fn1(nm, sa, r, w); }
  if (n == "pow") {
    if (!finite(r)) { if (sb == 0 && b < 0) fork_cmp(B_NE, sa, 0, 2); return 0; }
    if (!sb) {
      if (b == 0) return 0;
      if (b == 1) return copy(sa);
      if (b < 0) fork_cmp(B_NE, sa, 0, 2);
      if (b == truncl(b) && fabsl(b) <= 200) return mk(N_POWI, REAL, w, sa, 0, (int)b, r, 0);
      fork_cmp(B_GE, sa, 0, 2);
      if (2 * b == truncl(2 * b) && fabsl(b) <= 100) { uint32_t s = fn1("sqrt", sa, sqrtl(a), 80); return mk(N_POWI, REAL, w, s, 0, (int)(2 * b), r, 0); }
    } else {
      uint32_t iexp = 0;
      if (N[sb].op == C_SITOFP) iexp = N[sb].a;
      if (iexp) { conc_int(iexp); if (!sa) return 0; return __sym_libm(nm, sa, 0, 0, a, b, c, r, w); }
      if (sa) fork_cmp(B_GT, sa, 0, 2);
      else if (a <= 0) { lost["pow"]++; return 0; }
    }
    uint32_t l = sa ? fn1("log", sa, a > 0 ? logl(a) : 0, 80) : kreal(logl(a));
    if (sa && a == 0) return 0;
    uint32_t p = rb(FMUL, l, asreal(sb, b), nval(l) * b);
    return fn1("exp", p, r, w);
  }
  if (n == "atan2") { uint32_t y = asreal(sb, b); return mk(N_FN, REAL, w, x, y, fnid("atan2"), r, 0); }
  if (!finite(r)) return 0;
  if (n == "sin" || n == "cos" || n == "erf" || n == "atan" || n == "cbrt" || n == "tgamma" || n == "lgamma" || n == "j0" || n == "j1" || n == "y0" || n == "y1") return fn1(nm, sa, r, w);
  lost[n]++;
  return 0;
}

// ---- API ------------------------------------------------------------------
static uint32_t argsh(void *self, int i) { return __sym_callee == self ? __sym_argv[i] : 0; }
double symapi_real(const char *n, double lo, double hi, double init) {
  __sym_callee = nullptr;
  auto it = inputs.find(n);
  double v = it == inputs.end() ? init : strtod(it->second.c_str(), nullptr);
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  uint32_t id = mk(N_VAR, REAL, 64, 0, 0, (int)vars.size(), v, 0);
  vars.push_back({n, REAL, lo, hi, v, id});
  __sym_ret[0] = id; __sym_retfn = (void *)&symapi_real;
  return v;
}
long symapi_int(const char *n, long lo, long hi, long init) {
  __sym_callee = nullptr;
  auto it = inputs.find(n);
  long v = it == inputs.end() ? init : strtol(it->second.c_str(), nullptr, 0);
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  uint32_t id = mk(N_VAR, INT, 64, 0, 0, (int)vars.size(), 0, v, (double)lo, (double)hi);
  vars.push_back({n, INT, (double)lo, (double)hi, (double)v, id});
  __sym_ret[0] = id; __sym_retfn = (void *)&symapi_int;
  return v;
}
void symapi_assume(bool c) {
  uint32_t s = argsh((void *)&symapi_assume, 0); __sym_callee = nullptr;
  if (s) { if (N[s].sort == BOOL) add_path(s, c, 3); else conc_int(s); }
  if (!c) dump_and_exit("assume");
}
void symapi_assert(bool c, const char *l) {
  uint32_t s = argsh((void *)&symapi_assert, 0); __sym_callee = nullptr;
  if (s && N[s].sort != BOOL) { conc_int(s); s = 0; }
  asserts.push_back({l, 0, s, 0, (LD)c, 0, 0, c, path.size()});
}
void symapi_near(double a, double b, double tol, const char *l) {
  uint32_t sa = argsh((void *)&symapi_near, 0), sb = argsh((void *)&symapi_near, 1); __sym_callee = nullptr;
  asserts.push_back({l, 1, sa, sb, a, b, tol, std::fabs(a - b) <= tol, path.size()});
}
void symapi_le(double a, double b, double tol, const char *l) {
  uint32_t sa = argsh((void *)&symapi_le, 0), sb = argsh((void *)&symapi_le, 1); __sym_callee = nullptr;
  asserts.push_back({l, 2, sa, sb, a, b, tol, a <= b + tol, path.size()});
}
long symapi_cfg(const char *k, long d) { __sym_callee = nullptr; for (auto &x : cfgv) if (x.first == k) return strtol(x.second.c_str(), nullptr, 0); return d; }
const char *symapi_cfgs(const char *k, const char *d) { __sym_callee = nullptr; for (auto &x : cfgv) if (x.first == k) return x.second.c_str(); return d; }
void symapi_note(const char *t) { __sym_callee = nullptr; notes.push_back(t); }
int symapi_is_native() { return 0; }
}  // extern C

// ---- normaliser -------------------------------------------------------------
typedef std::vector<std::pair<int, int>> Mono;  // (atom, exponent), sorted
typedef std::map<int, Q> Acc;
typedef std::vector<std::pair<int, Q>> Poly;    // (mono id, coef), sorted by mono id
struct Atom { int kind; int f; Poly arg, arg2; LD val; int ref; };  // kind 0 var,1 fn,2 inv,3 intdiv,4 intmod
static std::deque<Atom> atoms;
static std::deque<Mono> monos;
static std::map<Mono, int> monoid;
static const size_t TERMCAP = 60000;
static int mono(const Mono &m) { auto it = monoid.find(m); if (it != monoid.end()) return it->second; monos.push_back(m); monoid[m] = monos.size() - 1; return monos.size() - 1; }
static Poly pconst(Q c) { Poly p; if (c != 0) p.push_back({mono({}), c}); return p; }
static Poly patom(int a, int e = 1) { return Poly{{mono({{a, e}}), (Q)1}}; }
static LD atomval(int a) { return atoms[a].val; }
static Q monoval(int m) { Q r = 1; for (auto &x : monos[m]) r *= powq((Q)atoms[x.first].val, x.second); return r; }
static Q pval(const Poly &p) { Q r = 0; for (auto &t : p) r += t.second * monoval(t.first); return r; }
static Poly padd(const Poly &a, const Poly &b, Q s) {
  Poly r; r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i >= a.size() || b[j].first < a[i].first) { r.push_back({b[j].first, s * b[j].second}); j++; }
    else { Q c = a[i].second + s * b[j].second; if (c != 0) r.push_back({a[i].first, c}); i++; j++; }
  }
  if (r.size() > TERMCAP) throw TooBig();
  return r;
}
static Poly pscale(const Poly &a, Q s) { Poly r; if (s == 0) return r; r = a; for (auto &t : r) t.second *= s; return r; }
static bool isconst(const Poly &p, Q &c) { if (p.empty()) { c = 0; return true; } if (p.size() == 1 && monos[p[0].first].empty()) { c = p[0].second; return true; } return false; }
static Poly pmul(const Poly &a, const Poly &b);
static Poly ppow(const Poly &a, int e);
static Poly pinv(const Poly &a);
static Poly denoise(const Poly &p) {
  Q mx = 0; for (auto &t : p) mx = fmaxq(mx, fabsq(t.second));
  Poly r; for (auto &t : p) if (fabsq(t.second) > 1e-13Q * mx) r.push_back(t);
  return r;
}
static bool pclose(const Poly &a, const Poly &b) {
  if (a.size() != b.size()) return false;
  Q mx = 0; for (auto &t : a) mx = fmaxq(mx, fabsq(t.second));
  for (size_t i = 0; i < a.size(); i++) if (a[i].first != b[i].first || fabsq(a[i].second - b[i].second) > 1e-11Q * mx) return false;
  return true;
}
static std::map<std::vector<int>, std::vector<int>> atombucket;
static int mkatom(int kind, int f, const Poly &arg, const Poly &arg2, LD val) {
  std::vector<int> key{kind, f}; for (auto &t : arg) key.push_back(t.first); key.push_back(-1); for (auto &t : arg2) key.push_back(t.first);
  for (int a : atombucket[key]) if (pclose(atoms[a].arg, arg) && pclose(atoms[a].arg2, arg2)) return a;
  atoms.push_back({kind, f, arg, arg2, val, 0});
  atombucket[key].push_back(atoms.size() - 1);
  return atoms.size() - 1;
}
static int FSQRT, FEXP, FSIN, FCOS, FLOG, FERF;
static Poly mkfn(int f, const Poly &arg0, const Poly &arg2, LD val);
static std::unordered_map<uint64_t, Poly> mmcache;
// canonicalise a raw product of atom powers
static Poly canon(const std::map<int, int> &raw, bool &plain, int &mid) {
  Mono m; std::vector<Poly> extra; Poly earg; bool hase = false; int nexp = 0; int lone = -1;
  std::map<int, int> sins;
  for (auto &x : raw) {
    int a = x.first, e = x.second;
    if (!e) continue;
    Atom &A = atoms[a];
    if (A.kind == 1 && A.f == FSQRT) {
      int r = ((e % 2) + 2) % 2, h = (e - r) / 2;
      if (r) m.push_back({a, 1});
      if (h) { Poly arg = atoms[a].arg; extra.push_back(ppow(arg, h)); }
    } else if (A.kind == 1 && A.f == FEXP) {
      hase = true; nexp++; lone = a; if (e != 1) nexp += 2; Poly arg = A.arg; earg = padd(earg, arg, e);
    } else if (A.kind == 1 && A.f == FSIN && e >= 2) {
      int h = e / 2; if (e % 2) m.push_back({a, 1});
      Poly arg = A.arg;
      Poly c = mkfn(FCOS, arg, {}, cosl((LD)pval(arg)));
      Poly om = padd(pconst(1), pmul(c, c), -1);
      extra.push_back(ppow(om, h));
    } else if (A.kind == 2 && e < 0) { Poly arg = A.arg; extra.push_back(ppow(arg, -e)); }
    else m.push_back({a, e});
  }
  if (hase) {
    if (nexp == 1) m.push_back({lone, 1});
    else { Poly e = mkfn(FEXP, earg, {}, expl((LD)pval(earg))); extra.push_back(e); }
  }
  std::sort(m.begin(), m.end());
  if (extra.empty()) { plain = true; mid = mono(m); return {}; }
  plain = false;
  Poly r{{mono(m), (Q)1}};
  for (auto &p : extra) r = pmul(r, p);
  return r;
}
struct MM { bool plain; int mid; int poly; };
static std::unordered_map<uint64_t, MM> mmtab;
static std::deque<Poly> mmpoly;
static MM mmul(int a, int b) {
  if (a > b) std::swap(a, b);
  uint64_t k = ((uint64_t)a << 32) | (uint32_t)b;
  auto it = mmtab.find(k);
  if (it != mmtab.end()) return it->second;
  std::map<int, int> raw;
  for (auto &x : monos[a]) raw[x.first] += x.second;
  for (auto &x : monos[b]) raw[x.first] += x.second;
  MM r; r.poly = -1; r.mid = 0;
  Poly p = canon(raw, r.plain, r.mid);
  if (!r.plain) { mmpoly.push_back(p); r.poly = mmpoly.size() - 1; }
  mmtab[k] = r;
  return r;
}
static long mulwork = 0, mulcap = 400000000;
static Poly pmul(const Poly &a, const Poly &b) {
  Q c;
  if (isconst(a, c)) return pscale(b, c);
  if (isconst(b, c)) return pscale(a, c);
  if ((mulwork += (long)a.size() * b.size()) > mulcap) throw TooBig();
  std::unordered_map<int, Q> acc;
  std::vector<std::pair<Q, int>> ex;
  for (auto &x : a) for (auto &y : b) {
    MM m = mmul(x.first, y.first);
    Q cc = x.second * y.second;
    if (m.plain) acc[m.mid] += cc; else ex.push_back({cc, m.poly});
    if (acc.size() > TERMCAP) throw TooBig();
  }
  for (auto &e : ex) { const Poly &p = mmpoly[e.second]; for (auto &t : p) acc[t.first] += e.first * t.second; }
  Poly r; r.reserve(acc.size());
  for (auto &t : acc) if (t.second != 0) r.push_back(t);
  std::sort(r.begin(), r.end(), [](auto &p, auto &q) { return p.first < q.first; });
  return r;
}
static Poly ppow(const Poly &a, int e) {
  if (e == 0) return pconst(1);
  if (e < 0) return pinv(ppow(a, -e));
  Poly r = pconst(1), b = a;
  while (e) { if (e & 1) r = pmul(r, b); e >>= 1; if (e) b = pmul(b, b); }
  return r;
}
static Poly pinv(const Poly &a0) {
  Poly a = denoise(a0);
  if (a.empty()) throw TooBig();
  Q c;
  if (isconst(a, c)) return pconst(1 / c);
  if (a.size() == 1) {
    std::map<int, int> raw; for (auto &x : monos[a[0].first]) raw[x.first] -= x.second;
    bool plain; int mid; Poly p = canon(raw, plain, mid);
    if (plain) return Poly{{mid, 1 / a[0].second}};
    return pscale(p, 1 / a[0].second);
  }
  // content: common monomial factor (over plain atoms)
  std::map<int, int> com; bool first = true;
  for (auto &t : a) {
    std::map<int, int> cur; for (auto &x : monos[t.first]) cur[x.first] = x.second;
    if (first) { com = cur; first = false; }
    else {
      for (auto it = com.begin(); it != com.end();) { int e = cur.count(it->first) ? cur[it->first] : 0; int m = it->second > 0 ? std::max(0, std::min(it->second, e)) : (e < 0 ? std::max(it->second, e) : 0); if (m == 0) it = com.erase(it); else { it->second = m; ++it; } }
      for (auto &x : cur) if (x.second < 0 && !com.count(x.first)) {}
    }
  }
  // negative exponents anywhere are pulled out too
  for (auto &t : a) for (auto &x : monos[t.first]) if (x.second < 0) { int &e = com[x.first]; e = std::min(e, x.second); }
  for (auto it = com.begin(); it != com.end();) { auto &A = atoms[it->first]; if (it->second == 0 || (A.kind == 1 && A.f == FEXP)) it = com.erase(it); else ++it; }
  Poly outer = pconst(1);
  if (!com.empty()) {
    std::map<int, int> raw; for (auto &x : com) raw[x.first] = -x.second;
    bool plain; int mid; Poly ci = canon(raw, plain, mid);
    if (plain) ci = Poly{{mid, (Q)1}};
    outer = ci;           // 1/common
    a = pmul(a, ci);
    a = denoise(a);
    if (a.size() <= 1) return pmul(outer, pinv(a));
  }
  Q mx = 0; for (auto &t : a) mx = fmaxq(mx, fabsq(t.second));
  Q lead = 1; for (auto &t : a) if (fabsq(t.second) > 0.3Q * mx) { lead = t.second; break; }
  a = pscale(a, 1 / lead);
  int at = mkatom(2, 0, a, {}, (LD)(1 / pval(a)));
  return pscale(pmul(outer, patom(at)), 1 / lead);
}
// sign does not depend on the inputs
static bool signed_atom(int a) {
  const Atom &A = atoms[a];
  if (A.kind == 0) return vars[A.f].lo >= 0 || vars[A.f].hi <= 0;
  if (A.kind == 1) return A.f == FEXP || A.f == FSQRT;
  if (A.kind == 2) { int s = 0; for (auto &t : A.arg) { int q = t.second < 0 ? -1 : 1; for (auto &x : monos[t.first]) if (x.second % 2) { if (!signed_atom(x.first)) return false; if (atoms[x.first].val < 0) q = -q; } if (s && s != q) return false; s = q; } return true; }
  return false;
}
static Poly mkfn(int f, const Poly &arg0, const Poly &arg20, LD val) {
  Poly arg = denoise(arg0), arg2 = denoise(arg20);
  Q c;
  if (f == FSQRT) {
    if (isconst(arg, c)) return pconst(sqrtq(c));
    if (arg.size() == 1) {  // sqrt(c x^2k ..): pull out even powers when sign known by value
      Q cc = arg[0].second; Mono m = monos[arg[0].first]; bool even = true; for (auto &x : m) if (x.second % 2 || (x.second / 2 % 2 && !signed_atom(x.first))) even = false;
      if (even && cc > 0) { std::map<int, int> raw; Q v = 1; for (auto &x : m) { raw[x.first] = x.second / 2; v *= powq((Q)atoms[x.first].val, x.second / 2); } bool pl; int mid; Poly p = canon(raw, pl, mid); if (pl) p = Poly{{mid, (Q)1}}; return pscale(p, (v < 0 ? -1 : 1) * sqrtq(cc)); }
    }
    Q mx = 0; for (auto &t : arg) mx = fmaxq(mx, fabsq(t.second));
    Q lead = 1; for (auto &t : arg) if (fabsq(t.second) > 0.3Q * mx) { lead = fabsq(t.second); break; }
    arg = pscale(arg, 1 / lead);
    return pscale(patom(mkatom(1, f, arg, {}, sqrtl(std::max((LD)0, (LD)pval(arg))))), sqrtq(lead));
  }
  if (f == FEXP) {
    if (isconst(arg, c)) return pconst(expq(c));
    Poly rest, pre = pconst(1); bool any = false;
    for (auto &t : arg) {
      Mono m = monos[t.first]; Q k = t.second;
      if (m.size() == 1 && m[0].second == 1 && atoms[m[0].first].kind == 1 && atoms[m[0].first].f == FLOG) {
        Q kr = rintq(2 * k);
        if (fabsq(2 * k - kr) < 1e-12Q && fabsq(kr) <= 128) {
          int kk = (int)kr; Poly la = atoms[m[0].first].arg;
          if (kk % 2 == 0) pre = pmul(pre, ppow(la, kk / 2));
          else pre = pmul(pre, ppow(mkfn(FSQRT, la, {}, sqrtl((LD)pval(la))), kk));
          any = true; continue;
        }
      }
      if (m.empty()) { pre = pscale(pre, expq(k)); any = true; continue; }
      rest.push_back(t);
    }
    if (any) { if (rest.empty()) return pre; return pmul(pre, mkfn(FEXP, rest, {}, expl((LD)pval(rest)))); }
    return patom(mkatom(1, f, arg, {}, val));
  }
  if (f == FLOG) {
    if (isconst(arg, c)) return pconst(logq(c));
    if (arg.size() == 1) {  // log of a monomial with positive factors
      bool ok = arg[0].second > 0; for (auto &x : monos[arg[0].first]) if (!(atoms[x.first].val > 0)) ok = false;
      if (ok) { Mono m = monos[arg[0].first]; Poly r = pconst(logq(arg[0].second));
        for (auto &x : m) { Atom A = atoms[x.first];
          if (A.kind == 1 && A.f == FEXP) r = padd(r, A.arg, x.second);
          else if (A.kind == 2) r = padd(r, mkfn(FLOG, A.arg, {}, logl((LD)pval(A.arg))), -x.second);
          else r = padd(r, patom(mkatom(1, FLOG, patom(x.first), {}, logl(A.val))), x.second); }
        return r; }
    }
    Q mx = 0; for (auto &t : arg) mx = fmaxq(mx, fabsq(t.second));
    Q lead = 1; for (auto &t : arg) if (fabsq(t.second) > 0.3Q * mx) { lead = fabsq(t.second); break; }
    arg = pscale(arg, 1 / lead);
    return padd(patom(mkatom(1, f, arg, {}, logl((LD)pval(arg)))), pconst(logq(lead)), 1);
  }
  if (f == FSIN || f == FCOS || f == FERF) {
    if (isconst(arg, c)) return pconst(f == FSIN ? sinq(c) : f == FCOS ? cosq(c) : erfq(c));
    Q mx = 0; for (auto &t : arg) mx = fmaxq(mx, fabsq(t.second));
    // integer multiple angles and sums of angles
    if (f != FERF) {
      if (arg.size() > 1 && arg.size() <= 3) {
        Poly a{arg.back()}, b(arg.begin(), arg.end() - 1);
        auto F = [&](int g, const Poly &q) { return mkfn(g, q, {}, 0); };
        return f == FSIN ? padd(pmul(F(FSIN, a), F(FCOS, b)), pmul(F(FCOS, a), F(FSIN, b)), 1) : padd(pmul(F(FCOS, a), F(FCOS, b)), pmul(F(FSIN, a), F(FSIN, b)), -1);
      }
      Q k = arg.size() == 1 ? rintq(fabsq(arg[0].second)) : 0;
      if (k > 1 && k <= 16 && fabsq(fabsq(arg[0].second) - k) < 1e-14Q) {
        Poly u{{arg[0].first, (Q)1}}, C = mkfn(FCOS, u, {}, 0), D = f == FCOS ? C : pconst(1), T0 = f == FCOS ? pconst(1) : Poly(), T1 = D;
        for (int i = 1; i < (int)k; i++) { Poly n = padd(pscale(pmul(C, T1), 2), T0, -1); T0 = T1; T1 = n; }
        return f == FCOS ? T1 : pscale(pmul(mkfn(FSIN, u, {}, 0), T1), arg[0].second < 0 ? -1 : 1);
      }
    }
    Q sg = 1; for (auto &t : arg) if (fabsq(t.second) > 0.3Q * mx) { sg = t.second < 0 ? -1 : 1; break; }
    // cos(acos x), sin(acos x), ...
    if (arg.size() == 1 && fabsq(arg[0].second - 1) < 1e-14Q && monos[arg[0].first].size() == 1 && monos[arg[0].first][0].second == 1) {
      Atom A = atoms[monos[arg[0].first][0].first];
      if (A.kind == 1 && A.arg2.empty()) {
        std::string an = fnnames[A.f];
        if (an == "acos" || an == "asin") { bool same = (an == "acos") == (f == FCOS); if (f != FERF) { if (same) return A.arg; Poly s = padd(pconst(1), pmul(A.arg, A.arg), -1); return mkfn(FSQRT, s, {}, 0); } }
      }
    }
    if (sg < 0) arg = pscale(arg, -1);
    LD av = (LD)pval(arg);
    LD v = f == FSIN ? sinl(av) : f == FCOS ? cosl(av) : erfl(av);
    return pscale(patom(mkatom(1, f, arg, {}, v)), f == FCOS ? 1 : sg);
  }
  return patom(mkatom(1, f, arg, arg2, val));
}
static std::vector<int> varatom;
static std::unordered_map<uint32_t, int> normid;
static std::deque<Poly> norms;
static const Poly &norm(uint32_t root) {
  // iterative post-order
  auto done = normid.find(root);
  if (done != normid.end()) return norms[done->second];
  std::vector<uint32_t> st{root};
  while (!st.empty()) {
    uint32_t id = st.back();
    if (normid.count(id)) { st.pop_back(); continue; }
    Node n = N[id];
    bool ready = true;
    if (n.op == N_ITE) { uint32_t win = bval(n.aux) ? n.a : n.b; if (!normid.count(win)) { st.push_back(win); ready = false; } }
    else if (n.op != N_CONST && n.op != N_VAR) {
      if (n.a && !normid.count(n.a)) { st.push_back(n.a); ready = false; }
      if (n.b && !normid.count(n.b)) { st.push_back(n.b); ready = false; }
    }
    if (!ready) continue;
    Poly r;
    auto P = [&](uint32_t x) -> const Poly & { return norms[normid[x]]; };
    switch (n.op) {
      case N_CONST: r = pconst(n.sort == REAL ? (Q)n.fv : (Q)n.iv); break;
      case N_VAR: r = patom(varatom[n.aux]); break;
      case N_COPY: case C_SITOFP: r = P(n.a); break;
      case FADD: case IADD: r = padd(P(n.a), P(n.b), 1); break;
      case FSUB: case ISUB: r = padd(P(n.a), P(n.b), -1); break;
      case FMUL: case IMUL: { Poly a = P(n.a), b = P(n.b); r = pmul(a, b); break; }
      case FDIV: { Poly a = P(n.a), b = P(n.b); Q c; if (isconst(b, c)) { if (c == 0) throw TooBig(); r = pscale(a, 1 / c); } else {
        Poly bd = denoise(b), ad = denoise(a);
        // proportional?
        if (bd.size() == ad.size() && bd.size() > 1) { Q k = ad[0].second / bd[0].second; if (pclose(pscale(bd, k), ad)) { r = pconst(k); break; } }
        r = pmul(a, pinv(b)); } break; }
      case FNEG: r = pscale(P(n.a), -1); break;
      case N_ITE: add_path(n.aux, bval(n.aux), 0); r = P(bval(n.aux) ? n.a : n.b); break;
      case N_ABS: { uint32_t b = cmpc(B_GE, n.a, 0); add_path(b, bval(b), 0); r = bval(b) ? P(n.a) : pscale(P(n.a), -1); break; }
      case N_POWI: { Poly a = P(n.a); r = ppow(a, n.aux); break; }
      case N_FN: { Poly a = P(n.a), b = n.b ? P(n.b) : Poly(); r = mkfn(n.aux, a, b, n.fv); break; }
      case N_IDIV: { Poly a = P(n.a); int at = mkatom(3, n.aux, a, {}, (LD)n.iv); r = patom(at); break; }
      case N_IMOD: { Poly a = P(n.a); int at = mkatom(4, n.aux, a, {}, (LD)n.iv); r = patom(at); break; }
      default: throw TooBig();
    }
    norms.push_back(std::move(r));
    normid[id] = norms.size() - 1;
    st.pop_back();
  }
  return norms[normid[root]];
}
// clear inverse atoms: returns numerator and denominator (den = product of p^k);
// even=true makes every k even so that den>0
static void clear_inv(Poly p, bool even, Poly &num, Poly &den) {
  den = pconst(1);
  for (int guard = 0; guard < 200; guard++) {
    int at = -1, mxe = 0;
    for (auto &t : p) for (auto &x : monos[t.first]) if (atoms[x.first].kind == 2 && x.second > 0 && (at < 0 || x.first >= at)) { if (x.first > at) { at = x.first; mxe = 0; } mxe = std::max(mxe, x.second); }
    if (at < 0) break;
    if (even && mxe % 2) mxe++;
    Poly base = atoms[at].arg;
    std::map<int, Poly> byexp;
    for (auto &t : p) {
      int e = 0; Mono m; for (auto &x : monos[t.first]) if (x.first == at) e = x.second; else m.push_back(x);
      Poly one{{mono(m), t.second}};
      byexp[e] = padd(byexp[e], one, 1);
    }
    Poly r;
    for (auto &b : byexp) r = padd(r, pmul(b.second, ppow(base, mxe - b.first)), 1);
    // den may itself contain this inverse only from bases with smaller index
    den = pmul(den, ppow(base, mxe));
    p = r;
  }
  num = p;
}

// ---- trace dump ---------------------------------------------------------------
static FILE *fo;
static std::string qs(Q x) { char b[128]; quadmath_snprintf(b, sizeof b, "%.36Qe", x); return b; }
static std::string js(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::vector<Poly> opolys;
static std::map<Poly, int> opolyid;
static int opoly(const Poly &p) { auto it = opolyid.find(p); if (it != opolyid.end()) return it->second; opolys.push_back(p); opolyid[p] = opolys.size() - 1; return opolys.size() - 1; }
static std::unordered_map<uint32_t, std::string> formcache;
static std::string form(uint32_t b) {  // JSON formula
  auto it = formcache.find(b);
  if (it != formcache.end()) return it->second;
  Node n = N[b];
  std::string r;
  if (n.op >= B_EQ && n.op <= B_GE) {
    static const char *nm[] = {"eq", "ne", "lt", "le", "gt", "ge"};
    Poly d = padd(Poly(norm(n.a)), norm(n.b), -1), num, den;
    clear_inv(d, true, num, den);
    r = std::string("[\"") + nm[n.op - B_EQ] + "\"," + std::to_string(opoly(num)) + "]";
  } else if (n.op == B_AND || n.op == B_OR || n.op == B_XOR) r = std::string("[\"") + (n.op == B_AND ? "and" : n.op == B_OR ? "or" : "xor") + "\"," + form(n.a) + "," + form(n.b) + "]";
  else if (n.op == B_NOT) r = "[\"not\"," + form(n.a) + "]";
  else r = "[\"opaque\"]";
  return formcache[b] = r;
}
static void dump_and_exit(const char *status) {
  if (dumping) { _Exit(7); }
  dumping = true;
  const char *out = getenv("SYM_OUT");
  fo = fopen(out ? out : "/dev/stdout", "w");
  if (!fo) _Exit(8);
  FSQRT = fnid("sqrt"); FEXP = fnid("exp"); FSIN = fnid("sin"); FCOS = fnid("cos"); FLOG = fnid("log"); FERF = fnid("erf");
  mono({});
  for (size_t i = 0; i < vars.size(); i++) { atoms.push_back({0, (int)i, {}, {}, vars[i].sort == INT ? (LD)N[vars[i].node].iv : N[vars[i].node].fv, 0}); varatom.push_back(i); }
  std::string sp, sa;
  long big = 0, selfchk = 0, selfbad = 0;
  for (auto &a : asserts) {
    std::string f;
    try {
      if (a.kind == 0) f = a.a ? "\"form\":" + form(a.a) : "\"form\":[\"const\"]";
      else {
        Poly pa = a.a ? norm(a.a) : pconst((Q)a.va), pb = a.b ? norm(a.b) : pconst((Q)a.vb);
        Poly d = padd(pa, pb, -1), num, den;
        if (!a.a && !a.b) f = "\"form\":[\"const\"]";
        else { clear_inv(d, a.kind == 2, num, den); f = "\"num\":" + std::to_string(opoly(num)) + ",\"den\":" + std::to_string(opoly(den));
          LD pv = (LD)(pval(num) / pval(den)), cv = a.va - a.vb; selfchk++; if (!(fabsl(pv - cv) <= 1e-6L * (1 + fabsl(a.va) + fabsl(a.vb)))) selfbad++; }
      }
    } catch (TooBig &) { f = "\"form\":[\"opaque\"]"; big++; }
    char b[256]; snprintf(b, 256, ",\"kind\":%d,\"tol\":%.17g,\"conc\":%d,\"plen\":%zu,\"va\":\"%.17g\",\"vb\":\"%.17g\"}", a.kind, a.tol, (int)a.conc, a.plen, (double)a.va, (double)a.vb);
    sa += (sa.empty() ? "" : ",\n") + std::string("{\"label\":") + js(a.label) + "," + f + b;
  }
  for (size_t ip = 0; ip < path.size(); ip++) {
    PathE p = path[ip];
    std::string f;
    try { f = form(p.node); } catch (TooBig &) { f = "[\"opaque\"]"; big++; }
    char b[64]; snprintf(b, 64, ",%d,%d]", (int)p.taken, p.kind);
    sp += (sp.empty() ? "" : ",\n") + std::string("[") + f + b;
  }
  // atom arguments become output polys too (may extend opolys)
  std::string st;
  for (size_t i = 0; i < atoms.size(); i++) {
    int p1 = -1, p2 = -1;
    try { if (atoms[i].kind) { Poly num, den; p1 = opoly(atoms[i].arg); if (!atoms[i].arg2.empty()) p2 = opoly(atoms[i].arg2); } } catch (TooBig &) {}
    char b[256]; snprintf(b, 256, "[%d,%s,%d,%d,\"%.21Lg\"]", atoms[i].kind, atoms[i].kind == 1 ? js(fnnames[atoms[i].f]).c_str() : std::to_string(atoms[i].f).c_str(), p1, p2, atoms[i].val);
    st += (st.empty() ? "" : ",\n") + std::string(b);
  }
  fprintf(fo, "{\"status\":%s,\"why\":%s,\n\"vars\":[", js(status).c_str(), js(giveup_why).c_str());
  for (size_t i = 0; i < vars.size(); i++) fprintf(fo, "%s[%s,%d,%.17g,%.17g,%.17g]", i ? "," : "", js(vars[i].name).c_str(), vars[i].sort, vars[i].lo, vars[i].hi, vars[i].val);
  fprintf(fo, "],\n\"atoms\":[%s],\n\"monos\":[", st.c_str());
  for (size_t i = 0; i < monos.size(); i++) { fprintf(fo, "%s[", i ? "," : ""); for (size_t k = 0; k < monos[i].size(); k++) fprintf(fo, "%s[%d,%d]", k ? "," : "", monos[i][k].first, monos[i][k].second); fprintf(fo, "]"); }
  fprintf(fo, "],\n\"polys\":[");
  for (size_t i = 0; i < opolys.size(); i++) { fprintf(fo, "%s[", i ? ",\n" : ""); for (size_t k = 0; k < opolys[i].size(); k++) fprintf(fo, "%s[%d,\"%s\"]", k ? "," : "", opolys[i][k].first, qs(opolys[i][k].second).c_str()); fprintf(fo, "]"); }
  fprintf(fo, "],\n\"path\":[%s],\n\"asserts\":[%s],\n\"sites\":[", sp.c_str(), sa.c_str());
  extern char __executable_start;
  bool f1 = true; for (void *p : sites) { fprintf(fo, "%s%ld", f1 ? "" : ",", (long)((char *)p - &__executable_start)); f1 = false; }
  fprintf(fo, "],\n\"lost\":{");
  f1 = true; for (auto &l : lost) { fprintf(fo, "%s%s:%ld", f1 ? "" : ",", js(l.first).c_str(), l.second); f1 = false; }
  fprintf(fo, "},\"notes\":[");
  f1 = true; for (auto &l : notes) { fprintf(fo, "%s%s", f1 ? "" : ",", js(l).c_str()); f1 = false; }
  fprintf(fo, "],\"nodes\":%zu,\"round\":%ld,\"big\":%ld,\"selfcheck\":%ld,\"selfcheck_bad\":%ld}\n", N.size(), nround, big, selfchk, selfbad);
  fclose(fo);
  _Exit(0);
}
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_malloc(size_t);
extern "C" void *calloc(size_t a, size_t b) noexcept { void *p = __libc_calloc(a, b); if (p && leafs && a * b < (1ull << 32)) __sym_memset(p, a * b); return p; }
extern "C" void *realloc(void *o, size_t n) noexcept {
  if (!o || !leafs) return __libc_realloc(o, n);
  size_t on = malloc_usable_size(o);
  std::vector<std::pair<size_t, uint32_t>> keep;
  uintptr_t b = (uintptr_t)o;
  bool any = false;
  for (uintptr_t x = b; x < b + on; x = (x | 65535) + 1) if (leaf(x, false)) any = true;
  if (any) for (size_t i = 0; i < std::min(on, n); i++) if (uint32_t s = shget(b + i)) keep.push_back({i, s});
  void *p = __libc_realloc(o, n);
  if (p && p != o) { __sym_memset(p, n); for (auto &k : keep) shset((uintptr_t)p + k.first, k.second); }
  return p;
}
static void onsig(int s) {
  // crash inside the code under test: report as a failed obligation
  static char buf[64]; snprintf(buf, 64, "crash: signal %d", s);
  asserts.push_back({buf, 0, 0, 0, 0, 0, 0, false, path.size()});
  signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL);
  dump_and_exit("crash");
}
int main(int argc, char **argv) {
  initmem();
  for (int i = 1; i < argc; i++) { char *e = strchr(argv[i], '='); if (e) cfgv.push_back({std::string(argv[i], e - argv[i]), e + 1}); }
  if (const char *f = getenv("SYM_IN")) if (FILE *fp = fopen(f, "r")) {
    char a[512], b[512];
    while (fscanf(fp, "%511s %511s", a, b) == 2) inputs[a] = b;
    fclose(fp);
  }
  if (const char *m = getenv("SYM_MAXOPS")) maxops = atol(m);
  static char altstk[1 << 16];
  stack_t ss{}; ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack(&ss, nullptr);
  signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig);
  std::string what; bool ex = false;
  try { sym_main(); }
  catch (std::exception &e) { ex = true; what = e.what(); }
  catch (...) { ex = true; what = "unknown"; }
  if (ex) { asserts.push_back({"exception: " + what, 0, 0, 0, 0, 0, 0, false, path.size()}); dump_and_exit("exception"); }
  dump_and_exit("ok");
}
