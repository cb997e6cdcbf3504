// Native runtime: inputs from a file, assertions decided by evaluation.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <string>
#include <vector>
static std::map<std::string, std::string> inputs;
static std::vector<std::pair<std::string, std::string>> cfgv;
static int nfail = 0, nassert = 0;
extern "C" {
double symapi_real(const char *n, double lo, double hi, double init) {
  auto it = inputs.find(n);
  double v = it == inputs.end() ? init : strtod(it->second.c_str(), nullptr);
  if (!(v >= lo && v <= hi)) { printf("INPUT-OUT-OF-RANGE %s\n", n); exit(3); }
  return v;
}
long symapi_int(const char *n, long lo, long hi, long init) {
  auto it = inputs.find(n);
  long v = it == inputs.end() ? init : strtol(it->second.c_str(), nullptr, 0);
  if (v < lo || v > hi) { printf("INPUT-OUT-OF-RANGE %s\n", n); exit(3); }
  return v;
}
void symapi_assume(bool c) { if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); _Exit(nfail ? 1 : 3); } }
void symapi_assert(bool c, const char *l) { nassert++; if (!c) { nfail++; printf("FAIL %s: condition false\n", l); fflush(stdout);} }
void symapi_near(double a, double b, double tol, const char *l) { nassert++; if (!(std::fabs(a - b) <= tol)) { nfail++; printf("FAIL %s: %.17g vs %.17g tol %g\n", l, a, b, tol); fflush(stdout);} }
void symapi_le(double a, double b, double tol, const char *l) { nassert++; if (!(a <= b + tol)) { nfail++; printf("FAIL %s: %.17g > %.17g tol %g\n", l, a, b, tol); fflush(stdout);} }
long symapi_cfg(const char *k, long d) { for (auto &x : cfgv) if (x.first == k) return strtol(x.second.c_str(), nullptr, 0); return d; }
const char *symapi_cfgs(const char *k, const char *d) { for (auto &x : cfgv) if (x.first == k) return x.second.c_str(); return d; }
void symapi_note(const char *) {}
int symapi_is_native() { return 1; }
}
int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) { char *e = strchr(argv[i], '='); if (e) cfgv.push_back({std::string(argv[i], e - argv[i]), e + 1}); }
  if (const char *f = getenv("SYM_IN")) if (FILE *fp = fopen(f, "r")) {
    char a[512], b[512];
    while (fscanf(fp, "%511s %511s", a, b) == 2) inputs[a] = b;
    fclose(fp);
  }
  try { sym_main(); }
  catch (std::exception &e) { printf("FAIL exception: %s\n", e.what()); nfail++; }
  catch (...) { printf("FAIL exception\n"); nfail++; }
  printf("ASSERTS %d FAILS %d\n", nassert, nfail);
  fflush(stdout);
  _Exit(nfail ? 1 : 0);
}
