// Command line: symbolic command lines (token by token) against a reference reading of the option conventions.
#include "sym.h"
#include "hutil.h"
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>
#include <stdexcept>
#include <fstream>
#include <unistd.h>
#include "general/cmdline.h"
#include "general/scf_helpers.h"
static volatile int ID[64]; static bool idset = [] { for (int i = 0; i < 64; i++) ID[i] = i; return true; }();
static int pick(const std::string &n, int hi) { int i = sym_int(n, 0, hi, 0); for (int k = 0; k <= hi; k++) if (i == k) return ID[k]; return ID[0]; }
template <class F> static bool throws(F f) { try { f(); } catch (std::exception &) { return true; } return false; }
struct Opt { std::string name; char sh; int kind; bool need; };   // kind: 0 flag, 1 int, 2 text, 3 real, 4 int in [1,5], 5 one of a|bc, 6 one of 1..3 (reals)
static std::vector<Opt> OPTS;
static void define(cmdline::parser &p, int need) {
  OPTS = {{"verbose", 'v', 0, false}, {"xray", 'x', 0, false}, {"num", 'n', 1, need == 1}, {"name", 's', 2, need == 2}, {"real", 0, 3, false}, {"rng", 'r', 4, false}, {"mode", 0, 5, false}, {"third", 't', 6, false}};
  p.add("verbose", 'v', "flag"); p.add("xray", 'x', "flag"); p.add<int>("num", 'n', "integer", need == 1, 7); p.add<std::string>("name", 's', "text", need == 2, "dflt"); p.add<double>("real", 0, "real", false, 0.25);
  p.add<int>("rng", 'r', "bounded", false, 3, cmdline::range(1, 5)); p.add<std::string>("mode", 0, "choice", false, "a", cmdline::oneof<std::string>("a", "bc")); p.add<double>("third", 't', "choice", false, 2.0, cmdline::oneof(1.0, 2.0, 3.0));
}
struct Set { bool has = false; std::string text; };
// number grammar: optional sign, digits [. digits] [e[sign]digits], nothing else
static bool isint(const std::string &s) { size_t i = s.size() && (s[0] == '-' || s[0] == '+'); if (i >= s.size()) return false; for (; i < s.size(); i++) if (s[i] < '0' || s[i] > '9') return false; return true; }
static bool isreal(const std::string &s) { size_t i = s.size() && (s[0] == '-' || s[0] == '+'), d = 0; for (; i < s.size() && isdigit(s[i]); i++) d++; if (i < s.size() && s[i] == '.') for (i++; i < s.size() && isdigit(s[i]); i++) d++; if (!d) return false; if (i < s.size() && s[i] == 'e') { i++; if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++; size_t q = 0; for (; i < s.size() && isdigit(s[i]); i++) q++; if (!q) return false; } return i == s.size(); }
static bool ok(int kind, const std::string &v) {
  switch (kind) { case 0: return false; case 1: return isint(v); case 2: return true; case 3: return isreal(v); case 4: return isint(v) && atoi(v.c_str()) >= 1 && atoi(v.c_str()) <= 5; case 5: return v == "a" || v == "bc"; case 6: return isreal(v) && (atof(v.c_str()) == 1 || atof(v.c_str()) == 2 || atof(v.c_str()) == 3); } return false; }
static bool refparse(const std::vector<std::string> &a, std::map<std::string, Set> &st, std::vector<std::string> &rest) {
  bool good = true; auto byname = [](const std::string &n) -> const Opt * { for (auto &o : OPTS) if (o.name == n) return &o; return nullptr; }; auto bysh = [](char c) -> const Opt * { for (auto &o : OPTS) if (o.sh && o.sh == c) return &o; return nullptr; };
  auto give = [&](const Opt *o, const std::string &v) { if (!o || !ok(o->kind, v)) good = false; else st[o->name] = {true, v}; };
  for (size_t i = 1; i < a.size(); i++) { const std::string &t = a[i];
    if (t.size() >= 2 && t[0] == '-' && t[1] == '-') { size_t e = t.find('='); if (e != std::string::npos) { give(byname(t.substr(2, e - 2)), t.substr(e + 1)); continue; }
      const Opt *o = byname(t.substr(2)); if (!o) good = false; else if (!o->kind) st[o->name] = {true, ""}; else if (i + 1 < a.size()) give(o, a[++i]); else good = false; }
    else if (t.size() && t[0] == '-') { for (size_t j = 1; j < t.size(); j++) { const Opt *o = bysh(t[j]); if (!o) good = false; else if (!o->kind) st[o->name] = {true, ""}; else if (j + 1 == t.size() && i + 1 < a.size()) { give(o, a[++i]); break; } else good = false; } }
    else rest.push_back(t); }
  for (auto &o : OPTS) if (o.need && !st[o.name].has) good = false;
  return good;
}
static const char *TOK[] = {"--verbose", "--num=12", "--num", "-n", "4", "-vx", "-s", "--nope", "-vn", "pos", "--rng", "--mode=bc", "--mode=ab", "--verbose=1", "--nope=3", "-q", "-", "-nv", "--rng=6", "--rng=5", "--rng=0", "--real=-1.5e2", "--real=1.5x", "--num=", "--name=", "--name=a b=c", "-5", "-x", "--third=3.0", "--third", "--real", "1.25", "-vqx", "--num=3.5", "--", "-t", "2", "--xray", "--mode", "bc", "--num=-8"};
static const int NTOK = sizeof TOK / sizeof *TOK;
static void compare(cmdline::parser &p, bool r, const std::vector<std::string> &argv) {
  std::map<std::string, Set> st; std::vector<std::string> rest; bool good = refparse(argv, st, rest); std::string l; for (auto &a : argv) l += " " + a; l += ":";
  sym_assert(r == good, l + (good ? " accepted" : " refused")); sym_assert(r ? p.error().empty() && p.error_full().empty() : !p.error().empty() && p.error_full().find(p.error()) != std::string::npos, l + " explained"); if (!r || !good) return;
  for (auto &o : OPTS) { Set s = st[o.name]; sym_assert(p.exist(o.name) == s.has, l + " presence of " + o.name); std::string L = l + " value of " + o.name; const char *t = s.text.c_str();
    switch (o.kind) { case 1: sym_assert(p.get<int>(o.name) == (s.has ? atoi(t) : 7), L); break; case 2: sym_assert(p.get<std::string>(o.name) == (s.has ? s.text : "dflt"), L); break; case 3: sym_assert(p.get<double>(o.name) == (s.has ? atof(t) : 0.25), L); break; case 4: sym_assert(p.get<int>(o.name) == (s.has ? atoi(t) : 3), L); break; case 5: sym_assert(p.get<std::string>(o.name) == (s.has ? s.text : "a"), L); break; case 6: sym_assert(p.get<double>(o.name) == (s.has ? atof(t) : 2.0), L); break; } }
  sym_assert(p.rest() == rest, l + " remaining arguments");
}
static void t_parse() {
  int n = cfg("n", 2), pool = cfg("pool", NTOK), need = cfg("need", 0), off = cfg("off", 0), form = cfg("form", 0); std::vector<std::string> a = {"prog"};
  for (int i = 0; i < n; i++) a.push_back(TOK[(pick(S("t%d", i), (i ? pool : cfg("p0", pool)) - 1) + (i ? off : cfg("lo", off))) % NTOK]);
  cmdline::parser p; define(p, need); bool r;
  if (form) r = p.parse(a); else { std::vector<const char *> v; for (auto &s : a) v.push_back(s.c_str()); r = p.parse((int)v.size(), v.data()); }
  compare(p, r, a);
}
// one string: words separated by single blanks, quoted or escaped
static void t_words() {
  static const char *W[] = {"pos", "--name=a b", "a\"b", "c\\d", "--verbose", "x  y", "-n", "8"}; std::string line = "prog"; std::vector<std::string> a = {"prog"};
  for (int i = 0; i < cfg("n", 2); i++) { std::string w = W[pick(S("w%d", i), 7)]; a.push_back(w); int q = pick(S("q%d", i), 2); line += ' '; bool in = q == 1; if (in) line += '"';
    for (size_t k = 0; k < w.size(); k++) { if (w[k] == '"' || w[k] == '\\' || (w[k] == ' ' && !in && q == 0)) line += '\\'; if (q == 2 && w[k] == ' ') { line += "\" \""; continue; } line += w[k]; } if (in) line += '"'; }
  int bad = pick("bad", 2); if (bad == 1) line += " \"open"; if (bad == 2) line += " \\";
  cmdline::parser p; define(p, 0); bool r = p.parse(line); if (bad) { sym_assert(!r && !p.error().empty(), "an unfinished string is refused"); return; } compare(p, r, a);
}
static void t_api() {
  cmdline::parser p; define(p, 0); static const char *N[] = {"verbose", "num", "name", "real", "rng", "mode", "third", "nope", ""}; std::string n = N[pick("n", 8)]; bool known = n != "nope" && n != "";
  sym_assert(throws([&] { p.exist(n); }) == !known, "asking for an undefined option"); sym_assert(throws([&] { p.get<int>(n); }) == !(n == "num" || n == "rng"), "type of " + n); sym_assert(throws([&] { p.get<double>(n); }) == !(n == "real" || n == "third"), "type of " + n); sym_assert(throws([&] { p.get<std::string>(n); }) == !(n == "name" || n == "mode"), "type of " + n);
  if (known) sym_assert(throws([&] { p.add(n, 0, ""); }) && throws([&] { p.add<int>(n, 0, "", false, 1); }), "redefinition refused");
  p.footer("FOOT"); p.set_program_name("PROG"); std::string u = p.usage(); sym_assert(u.find("PROG") != std::string::npos && u.find("FOOT") != std::string::npos, "usage names the program"); for (auto &o : OPTS) sym_assert(u.find("--" + o.name) != std::string::npos, "usage lists " + o.name); sym_assert(u.find("[=7]") != std::string::npos && u.find("[=dflt]") != std::string::npos && u.find("-n, ") != std::string::npos, "usage lists defaults");
  p.add("again", 'n', "same letter"); const char *v[] = {"prog", "--verbose"}; sym_assert(!p.parse(2, v), "an ambiguous letter is refused"); sym_assert(!p.parse(0, v), "no arguments at all");
}
// ranges and choices: every integer value, and option definitions with 1..10 alternatives
static void t_range() {
  int lo = sym_int("lo", -20, 20, -2), hi = sym_int("hi", -20, 20, 4), v = sym_int("v", -20, 20, 1); cmdline::range_reader<int> r = cmdline::range(lo, hi);
  static const char *T[] = {"-20", "-2", "0", "3", "19"}; int k = pick("k", 4), x = atoi(T[k]); (void)v; int got = -99; bool t = throws([&] { got = r(T[k]); }); sym_assert(t == (x < lo || x > hi), "range"); if (!t) sym_assert(got == x, "value in range");
  int a[10]; for (int i = 0; i < 10; i++) a[i] = sym_int(S("a%d", i), -20, 20, i); int n = cfg("n", 1); cmdline::oneof_reader<int> o;
  switch (n) { case 1: o = cmdline::oneof(a[0]); break; case 2: o = cmdline::oneof(a[0], a[1]); break; case 3: o = cmdline::oneof(a[0], a[1], a[2]); break; case 4: o = cmdline::oneof(a[0], a[1], a[2], a[3]); break; case 5: o = cmdline::oneof(a[0], a[1], a[2], a[3], a[4]); break; case 6: o = cmdline::oneof(a[0], a[1], a[2], a[3], a[4], a[5]); break; case 7: o = cmdline::oneof(a[0], a[1], a[2], a[3], a[4], a[5], a[6]); break; case 8: o = cmdline::oneof(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break; case 9: o = cmdline::oneof(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); break; case 10: o = cmdline::oneof(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]); break; }
  bool in = false; for (int i = 0; i < n; i++) in = in | (a[i] == x); t = throws([&] { got = o(T[k]); }); sym_assert(t == !in, "one of"); if (!t) sym_assert(got == x, "chosen value");
}
// functional parameters: given as text or as the name of a file holding them
static void t_pars() {
  static const char *T[] = {"0.5", "-2", "1e-3", "7.25", "+3", "x"}; static const double X[] = {0.5, -2, 1e-3, 7.25, 3}; static const char *SEP[] = {" ", "  ", "\t", "\n"}; int n = pick("n", cfg("n", 2)); std::string s; std::vector<double> ref; bool stop = false;
  for (int i = 0; i < n; i++) { int k = pick(S("p%d", i), 4 + (i > 0)); if (i) s += SEP[pick(S("s%d", i), 3)]; s += T[k]; if (k == 5) stop = true; else if (!stop) ref.push_back(X[k]); }
  bool file = pick("file", 1); char b[] = "/tmp/symcmdXXXXXX"; std::string d = mkdtemp(b), f = d + "/pars"; if (file) std::ofstream(f) << s << "\n";
  helfem::Vector v = helfem::scf::parse_xc_params(file ? f : s); unlink(f.c_str()); rmdir(d.c_str());
  sym_assert((size_t)v.size() == ref.size(), "number of parameters"); if ((size_t)v.size() == ref.size()) for (size_t i = 0; i < ref.size(); i++) sym_assert(v(i) == ref[i], "parameter value");
}
void sym_main() { std::string w = cfgs("what", "parse"); if (w == "parse") t_parse(); if (w == "words") t_words(); if (w == "api") t_api(); if (w == "range") t_range(); if (w == "pars") t_pars(); }
