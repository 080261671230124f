// Reading back HDF5 files on one process, without the library.
#pragma once
#include <hdf5.h>
#include <string>
#include <vector>
struct H5 {
  hid_t f = -1;
  explicit H5(const std::string &p) { H5Eset_auto2(H5E_DEFAULT, NULL, NULL); f = H5Fopen(p.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); }
  ~H5() { if (f >= 0) H5Fclose(f); }
  bool ok() const { return f >= 0; }
  bool has(const std::string &n) const {   // every step of the path must exist
    size_t i = 1; for (;;) { size_t j = n.find('/', i); std::string q = j == std::string::npos ? n : n.substr(0, j); if (H5Lexists(f, q.c_str(), H5P_DEFAULT) <= 0) return false; if (j == std::string::npos) return true; i = j + 1; } }
  // dataset as doubles; size of the stored element in *es
  std::vector<double> data(const std::string &n, int *es = nullptr) const {
    std::vector<double> o; if (!has(n)) { if (es) *es = -1; return o; } hid_t d = H5Dopen2(f, n.c_str(), H5P_DEFAULT); if (d < 0) return o; hid_t sp = H5Dget_space(d), t = H5Dget_type(d); o.resize(H5Sget_simple_extent_npoints(sp)); if (es) *es = (int)H5Tget_size(t);
    if (o.size() && H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, o.data()) < 0) o.clear(); H5Tclose(t); H5Sclose(sp); H5Dclose(d); return o; }
  bool hasAttr(const std::string &o, const char *a) const { return (o == "/" || has(o)) && H5Aexists_by_name(f, o.c_str(), a, H5P_DEFAULT) > 0; }
  double num(const std::string &o, const char *a) const { double v = NAN; if (!hasAttr(o, a)) return v; hid_t h = H5Aopen_by_name(f, o.c_str(), a, H5P_DEFAULT, H5P_DEFAULT); H5Aread(h, H5T_NATIVE_DOUBLE, &v); H5Aclose(h); return v; }
  std::string str(const std::string &o, const char *a) const { if (!hasAttr(o, a)) return "<absent>"; hid_t h = H5Aopen_by_name(f, o.c_str(), a, H5P_DEFAULT, H5P_DEFAULT), t = H5Aget_type(h); std::vector<char> b(H5Tget_size(t) + 1, 0); H5Aread(h, t, b.data()); H5Tclose(t); H5Aclose(h); return b.data(); }
};
