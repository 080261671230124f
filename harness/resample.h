// Reference resampling of a lattice field: direct DFT filter + trilinear sampling, and linear expansion.
#pragma once
#include "ref.h"
namespace ref {
inline void dft(std::vector<cd> &d, int n, int nz, int sign) {
  int dim[3] = {n, n, nz}; size_t st[3] = {1, (size_t)n, (size_t)n * n};
  for (int a = 0; a < 3; a++) { int N = dim[a]; std::vector<cd> w(N), t(N); for (int i = 0; i < N; i++) w[i] = std::polar(1., sign * 2 * M_PI * i / N);
    for (size_t s = 0; s < d.size(); s++) { if (s / st[a] % N) continue; for (int k = 0; k < N; k++) { cd q = 0; for (int i = 0; i < N; i++) q += d[s + i * st[a]] * w[(size_t)i * k % N]; t[k] = q; } for (int k = 0; k < N; k++) d[s + k * st[a]] = t[k]; } } }
// filtered field sampled on the coarser grid; z blocks stay with their process
template <class F_> std::vector<cd> expect(const std::vector<cd> &d, const F_ &F, int n, int nz, int mx, int mz, int np) {
  auto f = d; dft(f, n, nz, -1); double N = (double)n * n * nz; auto sg = [](int k, int n) { return k > n / 2 ? k - n : k; };
  for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) f[((size_t)z * n + y) * n + x] *= F(sg(x, n), sg(y, n), sg(z, nz)) / N;
  dft(f, n, nz, 1); int lz = nz / np; std::vector<cd> o((size_t)mx * mx * mz * np); auto at = [&](int x, int y, int z) { return f[((size_t)(z % nz) * n + y % n) * n + x % n]; };
  for (int r = 0; r < np; r++) for (int z = 0; z < mz; z++) for (int y = 0; y < mx; y++) for (int x = 0; x < mx; x++) {   // exact positions as fractions
    int X = x * n / mx, Y = y * n / mx, Z = z * lz / mz; double rx = (double)(x * n % mx) / mx, ry = (double)(y * n % mx) / mx, rz = (double)(z * lz % mz) / mz; cd q = 0; Z += r * lz;
    for (int i = 0; i < 8; i++) { double w = ((i & 1) ? rx : 1 - rx) * ((i & 2) ? ry : 1 - ry) * ((i & 4) ? rz : 1 - rz); if (w != 0) q += w * at(X + (i & 1), Y + (i >> 1 & 1), Z + (i >> 2)); } o[((size_t)(r * mz + z) * mx + y) * mx + x] = q; }
  return o; }
// value at site (x,y,z) of the n^2 x (lz np) lattice of a coarse field linearly interpolated, periodic
inline cd linear(const Grid &w, int mx, int mz, int n, int lz, int x, int y, int z) {
  int zl = z % lz, q = z / lz, X = x * mx / n, Y = y * mx / n, Z = zl * mz / lz + q * mz; double rx = (double)(x * mx % n) / n, ry = (double)(y * mx % n) / n, rz = (double)(zl * mz % lz) / lz; cd e = 0;
  for (int i = 0; i < 8; i++) e += ((i & 1) ? rx : 1 - rx) * ((i & 2) ? ry : 1 - ry) * ((i & 4) ? rz : 1 - rz) * w.at(X + (i & 1), Y + (i >> 1 & 1), Z + (i >> 2));
  return e; }
}
