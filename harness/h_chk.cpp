// Checkpoint files: symbolic histories of writes, removals, reopenings and reads, against an in-memory record.
#include "sym.h"
#include "hutil.h"
#include <cstdlib>
#include <unistd.h>
#include <map>
#include <stdexcept>
#include "general/checkpoint.h"
using namespace helfem;
typedef Eigen::MatrixXd MatD; typedef Eigen::VectorXd VecD;
size_t hdf5_open_handles();
struct Scratch { std::string dir; std::vector<std::string> f; Scratch() { char b[] = "/tmp/symchkXXXXXX"; if (mkdtemp(b)) dir = b; } std::string file(const std::string &n) { f.push_back(dir + "/" + n); return f.back(); } ~Scratch() { for (auto &x : f) unlink(x.c_str()); rmdir(dir.c_str()); } };
static volatile int ID[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12};   // keeps choices concrete
static int pick(const std::string &n, int hi) { int i = sym_int(n, 0, hi, 0); for (int k = 0; k <= hi; k++) if (i == k) return ID[k]; return ID[0]; }
template <class F> static bool throws(F f) { try { f(); } catch (std::exception &) { return true; } return false; }
enum { DBL, INT, HSZ, BOOL, STR, VEC, MAT, IMAT, VD, VH, LD, LMAT, NK };
static const char *KN[] = {"real", "integer", "size", "flag", "string", "vector", "matrix", "integer matrix", "list of reals", "list of sizes", "extended real", "extended matrix"};
struct Val { int k = -1; double d = 0; int i = 0; hsize_t h = 0; bool b = false; std::string s; VecD v; MatD m; Eigen::MatrixXi im; std::vector<double> vd; std::vector<hsize_t> vh; };
static double mat(int a, int b, int seq) { return sym_real(S("x%d_%d%d", seq, a, b), -1e3, 1e3, 1.5 * a - b + seq); }
static Val make(int k, int seq) { Val v; v.k = k; int big = 1 + seq;
  switch (k) {
  case DBL: case LD: v.d = k == LD ? 0.1 + seq : sym_real(S("d%d", seq), -1e3, 1e3, 1.25 + seq); break; case INT: v.i = sym_int(S("i%d", seq), -2000000000, 2000000000, 7 + seq); break; case HSZ: v.h = (hsize_t)sym_int(S("h%d", seq), 0, 2000000000, 5) + (seq ? 0 : 5000000000ull); break; case BOOL: v.b = pick(S("b%d", seq), 1); break;
  case STR: v.s = seq ? "some text" : std::string(); for (int i = 0; i < 3; i++) v.s.push_back((char)(33 + i + pick(S("c%d%d", seq, i), 1) * 80)); break;
  case VEC: v.v.resize(2 + seq); for (int i = 0; i < v.v.size(); i++) v.v(i) = mat(i, 0, seq); break; case MAT: v.m.resize(1 + seq, 3); for (int i = 0; i < v.m.rows(); i++) for (int j = 0; j < 3; j++) v.m(i, j) = mat(i, j, seq); break;
  case LMAT: v.m.resize(2, 1 + seq); for (int i = 0; i < 2; i++) for (int j = 0; j <= seq; j++) v.m(i, j) = 0.3 * i + 7 * j; break;
  case IMAT: v.im.resize(3, big); for (int i = 0; i < 3; i++) for (int j = 0; j < big; j++) v.im(i, j) = sym_int(S("y%d_%d%d", seq, i, j), -2000000000, 2000000000, 10 * i - j); break;
  case VD: v.vd.resize(3 - seq); for (size_t i = 0; i < v.vd.size(); i++) v.vd[i] = mat(i, 1, seq); break; case VH: v.vh.resize(2 + 2 * seq); for (size_t i = 0; i < v.vh.size(); i++) v.vh[i] = (hsize_t)sym_int(S("z%d_%d", seq, (int)i), 0, 2000000000, 3 * i) * 3; break; }
  return v; }
static void put(Checkpoint &c, const std::string &n, const Val &v) { switch (v.k) { case DBL: c.write(n, v.d); break; case INT: c.write(n, v.i); break; case HSZ: c.write(n, v.h); break; case BOOL: c.write(n, v.b); break; case STR: c.write(n, v.s); break; case VEC: c.write(n, helfem::Vector(v.v)); break; case MAT: c.write(n, helfem::Matrix(v.m)); break; case IMAT: c.write(n, v.im); break; case VD: c.write(n, v.vd); break; case VH: c.write(n, v.vh); break; case LD: c.write(n, (long double)v.d / 3); break; case LMAT: c.write(n, helfem::Mat<long double>(v.m.cast<long double>() / 3)); break; } }
// Reads entry n as kind k; compares with what was stored when the kinds agree.
static void get(Checkpoint &c, const std::string &n, int k, const Val *v, bool was_open) {
  std::string l = v ? std::string("a ") + KN[v->k] + " read back as a " + KN[k] : std::string("missing entry read as a ") + KN[k]; double d = 0; int i = 0; hsize_t h = 0; bool b = false; std::string s; helfem::Vector ve; helfem::Matrix m; Eigen::MatrixXi im; std::vector<double> vd; std::vector<hsize_t> vh; long double ld = 0; helfem::Mat<long double> lm; long j = 0; (void)j;
  bool t = throws([&] { switch (k) { case DBL: c.read(n, d); break; case INT: c.read(n, i); break; case HSZ: c.read(n, h); break; case BOOL: c.read(n, b); break; case STR: c.read(n, s); break; case VEC: c.read(n, ve); break; case MAT: c.read(n, m); break; case IMAT: c.read(n, im); break; case VD: c.read(n, vd); break; case VH: c.read(n, vh); break; case LD: c.read(n, ld); break; case LMAT: c.read(n, lm); break; } });
  if (!v) { sym_assert(t, l + ": refused"); return; }
  auto fl = [](int q) { return q == DBL || q == VEC || q == MAT || q == VD || q == LD || q == LMAT; }; auto rank = [](int q) { return q == VEC || q == MAT || q == IMAT || q == LMAT ? 2 : q == STR || q == VD || q == VH ? 1 : 0; };
  bool onecol = v->k == VEC || v->m.cols() == 1, same = fl(k) == fl(v->k) && rank(k) == rank(v->k) && (k != VEC || onecol);
  if (!same) { if (rank(k) != rank(v->k) || (k == VEC && fl(v->k)) || (k != IMAT && k != BOOL && fl(k) != fl(v->k))) sym_assert(t, l + ": refused"); return; }
  if (v->k == STR || k == STR || k == BOOL || v->k == BOOL) { if (k != v->k) return; } else if ((k == INT) != (v->k == INT) && (k == HSZ) != (v->k == HSZ)) return;
  sym_assert(!t, l + ": accepted"); if (t) return; sym_assert(c.is_open() == was_open, "reading leaves the file as open as it was");
  auto mm = [&](const MatD &a, const MatD &q) { sym_assert(a.rows() == q.rows() && a.cols() == q.cols(), l + ": shape"); if (a.rows() == q.rows() && a.cols() == q.cols()) for (int x = 0; x < a.rows(); x++) for (int y = 0; y < a.cols(); y++) sym_near(a(x, y), q(x, y), 0, l + S(" (%d,%d)", x, y)); };
  bool ext = v->k == LD || v->k == LMAT; MatD ref = v->k == VEC ? MatD(v->v) : v->m; auto third = [](double x) { return (double)((long double)x / 3); }; if (v->k == LMAT) for (int x = 0; x < ref.size(); x++) ref(x) = third(ref(x));
  switch (k) { case DBL: sym_near(d, ext ? third(v->d) : v->d, 0, l); break; case INT: sym_assert(i == v->i, l); break; case HSZ: sym_assert(h == v->h, l); break; case BOOL: sym_assert(b == v->b, l); break; case STR: sym_assert(s == v->s, l); break; case VEC: mm(MatD(ve), ref); break; case MAT: mm(m, ref); break; case IMAT: sym_assert(im.rows() == v->im.rows() && im.cols() == v->im.cols(), l + ": shape"); if (im.rows() == v->im.rows() && im.cols() == v->im.cols()) for (int x = 0; x < im.rows(); x++) for (int y = 0; y < im.cols(); y++) sym_assert(im(x, y) == v->im(x, y), l + S(" (%d,%d)", x, y)); break;
  case VD: sym_assert(vd.size() == v->vd.size(), l + ": length"); if (vd.size() == v->vd.size()) for (size_t x = 0; x < vd.size(); x++) sym_near(vd[x], v->vd[x], 0, l); break; case VH: sym_assert(vh.size() == v->vh.size(), l + ": length"); if (vh.size() == v->vh.size()) for (size_t x = 0; x < vh.size(); x++) sym_assert(vh[x] == v->vh[x], l); break;
  // extended precision: nothing may be lost on the way
  case LD: if (ext) sym_assert(ld == (long double)v->d / 3, l + ": full precision"); break; case LMAT: if (ext) { sym_assert(lm.rows() == v->m.rows() && lm.cols() == v->m.cols(), l + ": shape"); if (lm.size() == v->m.size()) for (int x = 0; x < lm.size(); x++) sym_assert(lm(x) == (long double)v->m(x) / 3, l + ": full precision"); } break; }
}
static void history() {
  Scratch scr; std::string f = scr.file("h.chk"); std::map<std::string, Val> ref; int k1 = cfg("k1", 0), k2 = cfg("k2", 0); size_t base = hdf5_open_handles();
  sym_assert(throws([&] { Checkpoint c(f, false); }), "a missing file cannot be read");
  { Checkpoint c(f, true); sym_assert(!c.is_open(), "a new file is closed"); bool op = pick("open", 1); if (op) { c.open(); sym_assert(throws([&] { c.open(); }), "cannot be opened twice"); } else sym_assert(throws([&] { c.close(); }), "cannot be closed twice");
    auto st = [&](const char *w) { sym_assert(c.is_open() == op, std::string(w) + " leaves the file as open as it was"); sym_assert(hdf5_open_handles() == base + (op ? 1 : 0), std::string(w) + " leaks nothing"); };
    ref["a"] = make(k1, 0); put(c, "a", ref["a"]); st("writing");
    int act = pick("act", 3); std::string n = act == 1 ? "b" : "a";
    if (act < 2) { ref[n] = make(k2, 1); put(c, n, ref[n]); st("writing again"); } else if (act == 2) { c.remove("a"); ref.erase("a"); st("removing"); c.remove("never there"); st("removing nothing"); } else if (op) c.flush();
    for (const char *q : {"a", "b", "ab"}) { sym_assert(c.exist(q) == (ref.count(q) == 1), std::string("existence of entry ") + q); st("asking"); }
    if (pick("same", 1)) { int k = pick("as", NK - 1); std::string r = pick("which", 1) ? "b" : "a"; get(c, r, k, ref.count(r) ? &ref[r] : nullptr, op); } }
  sym_assert(hdf5_open_handles() >= base, "handles"); int mode = pick("mode", 2);
  if (mode == 2) { { Checkpoint c(f, true); for (const char *q : {"a", "b"}) sym_assert(!c.exist(q), "a truncated file is empty"); } return; }
  if (mode == 1) { { Checkpoint c(f, true, false); sym_assert(c.is_open(), "an appended file is open"); Val v = make(DBL, 2); put(c, "late", v); ref["late"] = v; } }
  Checkpoint c(f, false); sym_assert(c.is_open(), "a file to read is open"); sym_assert(throws([&] { c.write("a", 1.0); }) && throws([&] { c.remove("a"); }) && throws([&] { c.write("q", std::string("x")); }) && throws([&] { c.write("q", 3); }) && throws([&] { c.write("q", true); }) && throws([&] { c.write("q", MatD(MatD::Zero(1, 1))); }), "a file opened for reading is not written to");
  for (auto &e : ref) get(c, e.first, e.second.k, &e.second, true);
  sym_assert(c.exist("b") == (ref.count("b") == 1) && c.exist("a") == (ref.count("a") == 1) && !c.exist("q"), "entries"); c.close(); sym_assert(!c.is_open(), "closed"); for (auto &e : ref) get(c, e.first, e.second.k, &e.second, false);
}
// On-disk layout shared with files of earlier releases
static void layout() {
  Scratch scr; std::string f = scr.file("l.chk"); MatD m(2, 3); Eigen::MatrixXi im(2, 3); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) { m(i, j) = mat(i, j, 0); im(i, j) = sym_int(S("y%d%d", i, j), -99, 99, i - j); }
  bool rd = pick("read", 1); hsize_t dd[2] = {3, 2}, di[2] = {2, 3};
  if (rd) { { Checkpoint c(f, true); } hid_t h = H5Fopen(f.c_str(), H5F_ACC_RDWR, H5P_DEFAULT); hid_t s = H5Screate_simple(2, dd, nullptr), d = H5Dcreate(h, "m", H5T_NATIVE_DOUBLE, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Dwrite(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data()); hid_t s2 = H5Screate_simple(2, di, nullptr), d2 = H5Dcreate(h, "i", H5T_NATIVE_INT, s2, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Dwrite(d2, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, im.data()); H5Dclose(d); H5Dclose(d2); H5Sclose(s); H5Sclose(s2); H5Fclose(h);
    Checkpoint c(f, false); Val v; v.k = MAT; v.m = m; get(c, "m", MAT, &v, true); Val w; w.k = IMAT; w.im = im; get(c, "i", IMAT, &w, true);
  } else { { Checkpoint c(f, true); c.write("m", helfem::Matrix(m)); c.write("i", im); } hid_t h = H5Fopen(f.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); for (int q = 0; q < 2; q++) { hid_t d = H5Dopen(h, q ? "i" : "m", H5P_DEFAULT), s = H5Dget_space(d); hsize_t dm[2] = {0, 0}; sym_assert(H5Sget_simple_extent_ndims(s) == 2, "two dimensions"); H5Sget_simple_extent_dims(s, dm, nullptr); sym_assert(q ? dm[0] == 2 && dm[1] == 3 : dm[0] == 3 && dm[1] == 2, "dimensions on disk"); double b[6]; int ib[6]; H5Dread(d, q ? H5T_NATIVE_INT : H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, q ? (void *)ib : (void *)b); for (int k = 0; k < 6; k++) if (q) sym_assert(ib[k] == im(k), "integers on disk"); else sym_near(b[k], m(k), 0, "reals on disk"); H5Dclose(d); H5Sclose(s); } H5Fclose(h); }
}
static void bases() {
  Scratch scr; std::string f = scr.file("b.chk"); bool dia = cfg("dia", 0); int var = pick("var", 3), pb = var % 3, nn = 3 + (var & 1); static const int PB[] = {4, 3, 5}; double R = sym_real("R", 0.3, 3, 1.3), s = sym_real("s", 0.4, 3, 1); VecD bv(3); bv << 0, 0.7 * s, 1.5 * s; Eigen::VectorXi lv(3), mv(3); lv << 0, 1, 2; mv << 0, 1, -1; int Z = sym_int("Z", 1, 50, 3), Zl = sym_int("Zl", 0, 40, 2), Zr = sym_int("Zr", 0, 40, 1), nq = 10 + var; int zd = dia ? 0 : pick("zd", 1), fn = dia ? 0 : pick("fn", 3); double rr = sym_real("rms", 0.01, 1, 0.2); bool op = pick("op", 1);
  std::shared_ptr<const polynomial_basis::PolynomialBasis> p(polynomial_basis::get_basis(PB[pb], nn)); auto chk = [&](const auto &x, const auto &y) { bool eq = x.get_lval() == y.get_lval() && x.get_mval() == y.get_mval() && x.get_nquad() == y.get_nquad() && x.get_poly_id() == y.get_poly_id() && x.get_poly_nnodes() == y.get_poly_nnodes() && x.Nbf() == y.Nbf(); sym_assert(eq, "saved basis description"); sym_near(x.get_Rhalf(), y.get_Rhalf(), 0, "saved distance"); VecD a = x.get_bval(), b = y.get_bval(); sym_assert(a.size() == b.size(), "saved elements"); for (int i = 0; i < a.size() && i < b.size(); i++) sym_near(a(i), b(i), 0, "saved element boundary"); };
  typedef atomic::basis::TwoDBasis AB; typedef diatomic::basis::TwoDBasis DB; auto go = [&](auto *x, auto *y, auto cmp) { { Checkpoint c(f, true); if (op) c.open(); c.write(*x); sym_assert(c.is_open() == op, "saving leaves the file as open as it was"); } Checkpoint c(f, false); if (op) c.close(); c.read(*y); sym_assert(c.is_open() != op, "loading leaves the file as open as it was"); chk(*x, *y); cmp(*x, *y); };
  if (dia) { static DB x(Z, Zl, R, p, nq, bv, lv, mv, false), y; go(&x, &y, [&](const DB &u, const DB &v) { sym_assert(u.get_Z1() == v.get_Z1() && u.get_Z2() == v.get_Z2() && v.get_Z1() == Z && v.get_Z2() == Zl, "saved charges"); }); static AB z; Checkpoint c(f, false); sym_assert(throws([&] { c.read(z); }), "a diatomic file is not an atom"); }
  else { static AB x(Z, (modelpotential::nuclear_model_t)fn, rr, p, zd, nq, bv, lv, mv, Zl, Zr, R), y; go(&x, &y, [&](const AB &u, const AB &v) { sym_assert(u.get_Z() == v.get_Z() && u.get_Zl() == v.get_Zl() && u.get_Zr() == v.get_Zr() && v.get_Z() == Z && v.get_Zl() == Zl && v.get_Zr() == Zr, "saved charges"); sym_assert(u.get_nuclear_model() == v.get_nuclear_model() && v.get_nuclear_model() == fn && u.get_zeroder() == v.get_zeroder() && v.get_zeroder() == zd, "saved nuclear model"); sym_near(u.get_nuclear_size(), v.get_nuclear_size(), 0, "saved nuclear size"); sym_near(v.get_nuclear_size(), rr, 0, "nuclear size"); }); static DB z; Checkpoint c(f, false); sym_assert(throws([&] { c.read(z); }), "an atomic file is not a diatomic one"); }
}
void sym_main() { std::string w = cfgs("what", "hist"); if (w == "hist") history(); else if (w == "layout") layout(); else bases(); }
