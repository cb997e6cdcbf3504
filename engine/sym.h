// Harness API.  The same harness source is compiled twice: by clang + sym-instr
// against rt.cpp (symbolic execution) and by the production compiler and flags
// against rt_native.cpp (replay of counterexamples on the real code).
#pragma once
#include <cmath>
#include <string>
extern "C" {
double symapi_real(const char *name, double lo, double hi, double init);
long symapi_int(const char *name, long lo, long hi, long init);
void symapi_assume(bool c);
void symapi_assert(bool c, const char *label);
void symapi_near(double a, double b, double tol, const char *label);
void symapi_le(double a, double b, double tol, const char *label);
long symapi_cfg(const char *key, long def);
const char *symapi_cfgs(const char *key, const char *def);
void symapi_note(const char *text);
int symapi_is_native();
}
inline double sym_real(const std::string &n, double lo, double hi, double init) { return symapi_real(n.c_str(), lo, hi, init); }
inline int sym_int(const std::string &n, int lo, int hi, int init) { return (int)symapi_int(n.c_str(), lo, hi, init); }
// restrict the inputs; the engine explores only inputs satisfying it
#define sym_assume(c) symapi_assume(c)
inline void sym_assert(bool c, const std::string &l) { symapi_assert(c, l.c_str()); }
// |a-b| <= tol
inline void sym_near(double a, double b, double tol, const std::string &l) { symapi_near(a, b, tol, l.c_str()); }
// a <= b + tol
inline void sym_le(double a, double b, double tol, const std::string &l) { symapi_le(a, b, tol, l.c_str()); }
inline int cfg(const char *k, int d) { return (int)symapi_cfg(k, d); }
inline std::string cfgs(const char *k, const char *d) { return symapi_cfgs(k, d); }
// harness entry point
void sym_main();
