#include "hdf5.h"
#include <fstream>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <set>
namespace {
struct Set { int type; bool scalar; std::vector<hsize_t> dims; std::vector<double> f; std::vector<long double> ld; std::vector<long long> i; };
struct File { std::map<std::string, std::shared_ptr<Set>> d; };
std::map<std::string, std::shared_ptr<File>> disk;
struct Handle { int kind; std::shared_ptr<File> file; bool rw = false; std::string name; std::shared_ptr<Set> set; int type = 0; bool scalar = false; std::vector<hsize_t> dims; };
std::map<hid_t, Handle> H; hid_t next = 5000;
hid_t add(const Handle &h) { H[++next] = h; return next; }
int ty(hid_t t) { if (t >= HF_F64 && t <= HF_CHAR) return (int)t; auto it = H.find(t); return it == H.end() || it->second.kind != 2 ? 0 : it->second.type; }
bool isf(int t) { return t == HF_F64 || t == HF_F80 || t == HF_F128; }
herr_t del(hid_t h, int kind) { auto it = H.find(h); if (it == H.end() || it->second.kind != kind) return -1; H.erase(it); return 0; }
size_t count(const std::vector<hsize_t> &d) { size_t n = 1; for (auto x : d) n *= x; return n; }
}
size_t hdf5_open_handles() { return H.size(); }
extern "C" {
hid_t H5Fcreate(const char *n, unsigned fl, hid_t, hid_t) { if (fl != H5F_ACC_TRUNC) return -1; { std::ofstream f(n); if (!f.good()) return -1; } Handle h; h.kind = 0; h.rw = true; h.file = disk[n] = std::make_shared<File>(); return add(h); }
hid_t H5Fopen(const char *n, unsigned fl, hid_t) { auto it = disk.find(n); if (it == disk.end()) return -1; Handle h; h.kind = 0; h.rw = fl == H5F_ACC_RDWR; h.file = it->second; return add(h); }
herr_t H5Fclose(hid_t f) { return del(f, 0); }
herr_t H5Fflush(hid_t, H5F_scope_t) { return 0; }
htri_t H5Lexists(hid_t f, const char *n, hid_t) { auto it = H.find(f); if (it == H.end()) return -1; return it->second.file->d.count(n) ? 1 : 0; }
herr_t H5Ldelete(hid_t f, const char *n, hid_t) { auto it = H.find(f); if (it == H.end() || !it->second.rw) return -1; return it->second.file->d.erase(n) ? 0 : -1; }
hid_t H5Screate(H5S_class_t c) { Handle h; h.kind = 1; h.scalar = c == H5S_SCALAR; return add(h); }
hid_t H5Screate_simple(int n, const hsize_t *d, const hsize_t *) { Handle h; h.kind = 1; h.dims.assign(d, d + n); return add(h); }
herr_t H5Sclose(hid_t s) { return del(s, 1); }
int H5Sget_simple_extent_ndims(hid_t s) { auto it = H.find(s); return it == H.end() ? -1 : (int)it->second.dims.size(); }
int H5Sget_simple_extent_dims(hid_t s, hsize_t *d, hsize_t *) { auto it = H.find(s); if (it == H.end()) return -1; for (size_t i = 0; i < it->second.dims.size(); i++) d[i] = it->second.dims[i]; return it->second.dims.size(); }
H5S_class_t H5Sget_simple_extent_type(hid_t s) { auto it = H.find(s); return it == H.end() ? H5S_NO_CLASS : it->second.scalar ? H5S_SCALAR : H5S_SIMPLE; }
hid_t H5Tcopy(hid_t t) { int k = ty(t); if (!k) return -1; Handle h; h.kind = 2; h.type = k; return add(h); }
herr_t H5Tclose(hid_t t) { return del(t, 2); }
H5T_class_t H5Tget_class(hid_t t) { int k = ty(t); return !k ? H5T_NO_CLASS : isf(k) ? H5T_FLOAT : H5T_INTEGER; }
herr_t H5Tset_size(hid_t t, size_t) { H[t].type = HF_F128; return 0; }
herr_t H5Tset_precision(hid_t, size_t) { return 0; }
herr_t H5Tset_fields(hid_t, size_t, size_t, size_t, size_t, size_t) { return 0; }
herr_t H5Tset_ebias(hid_t, size_t) { return 0; }
hid_t H5Dcreate(hid_t f, const char *n, hid_t t, hid_t s, hid_t, hid_t, hid_t) {
  auto it = H.find(f), is = H.find(s); if (it == H.end() || is == H.end() || !ty(t) || !it->second.rw || it->second.file->d.count(n)) return -1;
  auto d = std::make_shared<Set>(); d->type = ty(t); d->scalar = is->second.scalar; d->dims = is->second.dims; size_t c = count(d->dims);
  if (d->type == HF_F64) d->f.assign(c, 0.0); else if (isf(d->type)) d->ld.assign(c, 0.0L); else d->i.assign(c, 0);
  it->second.file->d[n] = d; Handle h; h.kind = 3; h.set = d; h.rw = true; return add(h);
}
hid_t H5Dopen(hid_t f, const char *n, hid_t) { auto it = H.find(f); if (it == H.end() || !it->second.file->d.count(n)) return -1; Handle h; h.kind = 3; h.set = it->second.file->d[n]; h.rw = it->second.rw; return add(h); }
herr_t H5Dclose(hid_t d) { return del(d, 3); }
hid_t H5Dget_type(hid_t d) { auto it = H.find(d); if (it == H.end()) return -1; Handle h; h.kind = 2; h.type = it->second.set->type; return add(h); }
hid_t H5Dget_space(hid_t d) { auto it = H.find(d); if (it == H.end()) return -1; Handle h; h.kind = 1; h.scalar = it->second.set->scalar; h.dims = it->second.set->dims; return add(h); }
static long long geti(int t, const void *p, size_t k) { return t == HF_INT ? ((const int *)p)[k] : t == HF_HSIZE ? (long long)((const hsize_t *)p)[k] : t == HF_BOOL ? ((const unsigned char *)p)[k] : ((const char *)p)[k]; }
herr_t H5Dwrite(hid_t d, hid_t t, hid_t, hid_t, hid_t, const void *p) {
  auto it = H.find(d); if (it == H.end() || !it->second.rw) return -1; Set &s = *it->second.set; int k = ty(t); size_t n = count(s.dims); if (isf(k) != isf(s.type) || k == HF_F128) return -1;
  for (size_t j = 0; j < n; j++) { if (!isf(k)) s.i[j] = geti(k, p, j); else if (s.type == HF_F64) s.f[j] = k == HF_F64 ? ((const double *)p)[j] : (double)((const long double *)p)[j]; else s.ld[j] = k == HF_F64 ? (long double)((const double *)p)[j] : ((const long double *)p)[j]; }
  return 0;
}
herr_t H5Dread(hid_t d, hid_t t, hid_t, hid_t, hid_t, void *p) {
  auto it = H.find(d); if (it == H.end()) return -1; Set &s = *it->second.set; int k = ty(t); size_t n = count(s.dims); if (isf(k) != isf(s.type) || k == HF_F128) return -1;
  for (size_t j = 0; j < n; j++) {
    if (isf(k)) { if (k == HF_F64) ((double *)p)[j] = s.type == HF_F64 ? s.f[j] : (double)s.ld[j]; else ((long double *)p)[j] = s.type == HF_F64 ? (long double)s.f[j] : s.ld[j]; }
    else if (k == HF_INT) ((int *)p)[j] = (int)s.i[j]; else if (k == HF_HSIZE) ((hsize_t *)p)[j] = (hsize_t)s.i[j]; else if (k == HF_BOOL) ((unsigned char *)p)[j] = (unsigned char)s.i[j]; else ((char *)p)[j] = (char)s.i[j];
  }
  return 0;
}
}
