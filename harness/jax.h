// Common fixture: library set-up, field construction and layout-aware access.
#pragma once
#include <cstring>
#include <vector>
#include <complex>
#include <string>
#include <memory>
#include "enum-field.h"
#include "cosmos/cosmos.h"
#include "scalar/scalarField.h"
#include "scalar/folder.h"
#include "utils/utils.h"
#include "comms/comms.h"
#include "utils/parse.h"
#include "pbt.h"

int  jaxInit(int argc, char **argv, int np);
void jaxReset();
double wall();

// Everything a lattice + background needs; defaults are a plain radiation background.
struct Cfg {
  int n = 16, nz = 16, Ng = 1;            // nz: total depth over all ranks
  FieldPrecision prec = FIELD_SINGLE;
  FieldType type = FIELD_SAXION;
  bool lowmem = false;
  double L = 4, zi = 1.0, lambda = 10, lz2e = 0, indi3 = 1, nqcd = 7, nqcdr = 7, zth = 1e8, zrs = 1e30, frw = 1, gamma = 0, dectime = -1;
  bool mink = false; double grav = -1, fA = 1e11; bool uec = false;   // matter term of R, tabulated cosmology
  VqcdType pot = (VqcdType)(V_QCD1 | V_PQ1);
  LambdaType ltype = LAMBDA_FIXED;
  bool dp() const { return prec == FIELD_DOUBLE; }
  double eps() const { return prec == FIELD_DOUBLE ? 2.3e-16 : 1.2e-7; }
  bool cplx() const { return type == FIELD_SAXION || type == FIELD_NAXION; }
  std::string str() const;
};
void setupCosmos(Cosmos &c, const Cfg &g);
Cosmos &tabulated(double fA);               // the tabulated cosmology alone
bool drawExpansion(pbt::Case &c, Cfg &g);   // now and then a matter term or the tabulated cosmology; call after frw, zi and the masses are drawn

struct Fld {
  Cosmos cosmos; std::unique_ptr<Scalar> own; Scalar *s = nullptr; Cfg g; std::vector<void *> extra;
  explicit Fld(const Cfg &g); Fld(const Cfg &g, Scalar *adopt); ~Fld();   // the second takes over a field made elsewhere; g.type is the type it was created with
  Fld(const Fld &) = delete;
  int n() const { return s->Length(); } int lz() const { return s->Depth(); } int z0() const { return commRank() * (int)s->Depth(); }
  int nz() const { return s->TotalDepth(); }
  size_t elems() const { return s->Size(); }
  // site index inside the interior of m/v/m2 for local coordinates
  size_t idx(int x, int y, int zl, bool folded) const {
    size_t n1 = s->Length(), n2 = s->Surf(); if (!folded) return (size_t)zl * n2 + (size_t)y * n1 + x;
    size_t sh = s->DataAlign() / s->DataSize(), h = n1 / sh; size_t sy = y / h, iy = y % h; return (size_t)zl * n2 + iy * n1 * sh + (size_t)x * sh + sy; }
  bool cplx() const { return s->DataSize() == 2 * (size_t)s->Precision(); }
  cd get(const void *base, size_t i) const {
    if (s->Precision() == FIELD_DOUBLE) { const double *p = (const double *)base; return cplx() ? cd(p[2 * i], p[2 * i + 1]) : cd(p[i], 0); }
    const float *p = (const float *)base; return cplx() ? cd(p[2 * i], p[2 * i + 1]) : cd(p[i], 0); }
  void put(void *base, size_t i, cd v) const {
    if (s->Precision() == FIELD_DOUBLE) { double *p = (double *)base; if (cplx()) { p[2 * i] = v.real(); p[2 * i + 1] = v.imag(); } else p[i] = v.real(); }
    else { float *p = (float *)base; if (cplx()) { p[2 * i] = v.real(); p[2 * i + 1] = v.imag(); } else p[i] = v.real(); } }
  cd m(int x, int y, int zl) const { return get(s->mStart(), idx(x, y, zl, s->Folded())); }
  cd v(int x, int y, int zl) const { return get(s->vStart(), idx(x, y, zl, s->Folded())); }
  void setM(int x, int y, int zl, cd a) { put(s->mStart(), idx(x, y, zl, s->Folded()), a); }
  void setV(int x, int y, int zl, cd a) { put(s->vStart(), idx(x, y, zl, s->Folded()), a); }
  // real-valued map stored unfolded in a buffer of the field's precision
  double real(const void *base, size_t i) const { return s->Precision() == FIELD_DOUBLE ? ((const double *)base)[i] : (double)((const float *)base)[i]; }
  void putReal(void *base, size_t i, double v) const { if (s->Precision() == FIELD_DOUBLE) ((double *)base)[i] = v; else ((float *)base)[i] = (float)v; }
  // value as stored (rounded to the field's precision)
  double rnd(double a) const { return s->Precision() == FIELD_DOUBLE ? a : (double)(float)a; }
  cd rnd(cd a) const { return cd(rnd(a.real()), rnd(a.imag())); }
  void poisonGhosts();                       // NaN in the ghost slices of m, m2 and the tail of v
  void fold() { Folder f(s); f(FOLD_ALL); } void unfold() { Folder f(s); f(UNFOLD_ALL); }
};

// Global (all ranks) copy of a lattice field, periodic access.
struct Grid {
  int n, nz; std::vector<cd> d;
  Grid(int n_ = 0, int nz_ = 0) : n(n_), nz(nz_), d((size_t)n_ * n_ * nz_) {}
  static int w(int i, int n) { i %= n; return i < 0 ? i + n : i; }
  cd &at(int x, int y, int z) { return d[((size_t)w(z, nz) * n + w(y, n)) * n + w(x, n)]; }
  const cd &at(int x, int y, int z) const { return d[((size_t)w(z, nz) * n + w(y, n)) * n + w(x, n)]; }
};
Grid gatherM(const Fld &f); Grid gatherV(const Fld &f);
void scatterM(Fld &f, const Grid &g); void scatterV(Fld &f, const Grid &g);

// A drawn field content. kind: 0 constant, 1 noise, 2 plane waves, 3 deltas, 4 waves + noise
struct Content {
  int kind; uint64_t seed; double amp; cd base; 
  cd operator()(int x, int y, int z, int n, int nz) const;
};
Content drawContent(pbt::Case &c, double amp, cd base, bool allowConst = true);
Grid fillGrid(const Content &k, int n, int nz, bool cplx, FieldPrecision p);
inline double rndp(double a, FieldPrecision p) { return p == FIELD_DOUBLE ? a : (double)(float)a; }
inline cd rndp(cd a, FieldPrecision p) { return cd(rndp(a.real(), p), rndp(a.imag(), p)); }
// run a block with stdout silenced
struct Quiet { int fd; Quiet(); ~Quiet(); };
std::string scratchDir();
