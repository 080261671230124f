// C19: reduced and expanded fields against an explicit filter on the directly computed Fourier modes plus trilinear sampling
#include "resample.h"
#include "fft/fftCode.h"
#include "reducer/reducer.h"
#include <mpi.h>
#include <omp.h>
#include <sstream>
#include <math.h>
namespace simpleops {
#include "utils/simpleops.h"
}
using namespace ref; using namespace AxionFFT;
struct Filt { int kind; double a, b, c; int n, nz;
  cd operator()(int kx, int ky, int kz) const {
    switch (kind) { case 0: return 1; case 1: return exp(-a * kx * kx - b * ky * ky - c * kz * kz); case 2: return (a * kx * kx + b * ky * ky + c * kz * kz > 1) ? 0. : 1.;
      case 3: return 1. / (1 + a * abs(kx) + b * abs(ky) + c * abs(kz));
      default: if (2 * abs(kx) == n || 2 * abs(ky) == n || 2 * abs(kz) == nz) return 0; return std::polar(1., a * 3 * kx + b * 2 * ky - c * kz); } }
  const char *nm() const { static const char *s[] = {"identity", "gauss", "sharp", "lorentz", "phase"}; return s[kind]; } };
static Filt drawFilt(Case &c, int n, int nz, bool cx) { Filt f; f.kind = c.pick<int>({1, 2, 3, 0, 1, 4}); if (f.kind == 4 && !cx) f.kind = 3; auto q = [&](int N) { return c.logreal(0.3, 8) / (N * N / 4.0); }; f.a = q(n); f.b = q(n); f.c = q(nz); if (c.chance(15, 100)) f.a = f.b = f.c; f.n = n; f.nz = nz; c.label(f.nm()); return f; }
static double amax(const std::vector<cd> &d) { double m = 0; for (auto q : d) m = std::max(m, std::abs(q)); return m; }
static Scalar *reduce(Scalar *s, size_t mx, size_t mz, FieldIndex fi, const Filt &F, bool in) {
  Quiet q; if (s->Precision() == FIELD_DOUBLE) return reduceField(s, mx, mz, fi, std::function<std::complex<double>(int, int, int, std::complex<double>)>([F](int x, int y, int z, std::complex<double> v) { return v * F(x, y, z); }), in);
  return reduceField(s, mx, mz, fi, std::function<std::complex<float>(int, int, int, std::complex<float>)>([F](int x, int y, int z, std::complex<float> v) { return v * (std::complex<float>)F(x, y, z); }), in); }
static void compare(Case &c, const Fld &f, const void *p, bool cx, const std::vector<cd> &w, int mx, int mz, double tol, const char *what) {
  int r = commRank(); bool bad = false; std::string msg; size_t V = (size_t)mx * mx * mz; for (size_t i = 0; i < V && !bad; i++) { cd g = cx ? cd(f.real(p, 2 * i), f.real(p, 2 * i + 1)) : cd(f.real(p, i), 0), e = w[r * V + i]; if (!(std::abs(g - e) <= tol)) { bad = true; char b[300]; snprintf(b, sizeof b, "%s at reduced site (%d,%d,%d) of process %d is (%.9g,%.9g), filtered and sampled field (%.9g,%.9g), tolerance %.3g", what, (int)(i % mx), (int)(i / mx % mx), (int)(i / mx / mx), r, g.real(), g.imag(), e.real(), e.imag(), tol); msg = b; } }
  if (bad) c.fail(what, "%s", msg.c_str()); }
static void geom(Case &c, Cfg &g, int &mx, int &mz, bool &in) {
  int np = commSize(); g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); g.Ng = c.pick<int>({1, 2, 1, 3}); g.n = 2 * c.range(4, 10); auto odd = [&](int n) { return n % np || (n * n * 4) % 32; }; while (odd(g.n) || (g.type == FIELD_SAXION ? g.n % 8 : g.n % 8)) g.n += 2;
  int lz = c.range(std::max(2, g.Ng), std::max(g.Ng, np == 1 ? 14 : 8)); lz = std::min(lz, g.n); g.nz = np * lz; mx = c.range(2, g.n - 1); mz = c.range(1, lz - 1); if (c.chance(1, 2)) mx = g.n / 2; if (c.chance(4, 10) && lz % 2 == 0) mz = lz / 2; if (!in) { if (c.chance(15, 100)) { mx = g.n; mz = lz; } size_t fs = (g.type == FIELD_SAXION ? 2 : 1) * (size_t)g.prec; while ((mx * mx * fs) % 32 || mx > g.n) mx = mx >= g.n ? 4 : mx + 1; } }
LAW(C19, reduce_fields, 500, 14000, NP1 | NP2 | NP3) {
  Cfg g; int mx, mz, np = commSize(); g.type = c.pick<FieldType>({FIELD_SAXION, FIELD_AXION, FIELD_SAXION, FIELD_AXION, FIELD_PAXION}); bool in = c.flip(); geom(c, g, mx, mz, in); bool cx = g.type == FIELD_SAXION; int n = g.n, nz = g.nz; Filt F = drawFilt(c, n, nz, cx); bool fold = c.flip() && g.type != FIELD_PAXION; Content km = drawContent(c, 1, cd(0.3, 0.1)), kv = drawContent(c, 2, 0); int which = c.range(1, 3);
  c.say("%s -> %dx%dx%d filter %s %.5g %.5g %.5g inplace=%d folded=%d fields=%d", g.str().c_str(), mx, mx, mz * np, F.nm(), F.a, F.b, F.c, in, fold, which); Fld f(g); Scalar *s = f.s; if (fold) f.fold();
  Grid m = fillGrid(km, n, nz, cx, g.prec), v = fillGrid(kv, n, nz, cx, g.prec); f.poisonGhosts(); scatterM(f, m); scatterV(f, v);
  auto wm = expect(m.d, F, n, nz, mx, mz, np), wv = expect(v.d, F, n, nz, mx, mz, np); double eps = g.eps(), lg = log2((double)n * n * nz);
  Scalar *o = reduce(s, mx, mz, (FieldIndex)(which == 1 ? FIELD_M : which == 2 ? FIELD_V : FIELD_MV), F, in); if (!o) { c.fail("null", "no reduced field returned"); return; }
  c.check((o == s) == in, "place", "reduced field %s the original although in-place was %d", o == s ? "is" : "is not", in); c.check(o->Length() == (size_t)mx && o->Depth() == (size_t)mz && o->TotalDepth() == (size_t)mz * np && o->Size() == (size_t)mx * mx * mz, "dims", "reduced field is %zu x %zu (total %zu), asked for %d x %d", o->Length(), o->Depth(), o->TotalDepth(), mx, mz);
  c.check(o->Precision() == g.prec && o->Field() == g.type && *o->zV() == g.zi, "kind", "reduced field has precision %d type %d time %g", (int)o->Precision(), (int)o->Field(), *o->zV());
  compare(c, f, o->mStart(), cx, wm, mx, mz, 30 * eps * lg * (amax(m.d) + 1e-30), "m"); compare(c, f, o->vStart(), cx, wv, mx, mz, 30 * eps * lg * (amax(v.d) + 1e-30), "v");
  if (!in) { Grid gm = gatherM(f), gv = gatherV(f); for (size_t i = 0; i < gm.d.size(); i++) if (gm.d[i] != m.d[i] || gv.d[i] != v.d[i]) { c.fail("source", "reduction changed the original field at site %zu: m (%.9g,%.9g) was (%.9g,%.9g), v (%.9g,%.9g) was (%.9g,%.9g)", i, gm.d[i].real(), gm.d[i].imag(), m.d[i].real(), m.d[i].imag(), gv.d[i].real(), gv.d[i].imag(), v.d[i].real(), v.d[i].imag()); break; }
    void *e[4] = {o->vCpu(), o->rhoCpu(), o->vhoCpu(), o->gxCpu()}; delete o; if (g.type == FIELD_PAXION) for (auto p : e) trackFree(p); }
  c.nontrivial = km.kind != 0 && kv.kind != 0 && F.kind != 0 && mx < n; c.label(cx ? "complex" : g.type == FIELD_PAXION ? "paxion" : "angle"); c.label(in ? "in-place" : "new");
}
LAW(C19, reduce_energy, 350, 11000, NP1 | NP2 | NP3) {
  Cfg g; int mx, mz, np = commSize(); g.type = c.pick<FieldType>({FIELD_SAXION, FIELD_AXION}); bool in = true; geom(c, g, mx, mz, in); bool cx = g.type == FIELD_SAXION; int n = g.n, nz = g.nz, lz = nz / np; if (c.chance(1, 10)) { mx = n; mz = lz; } Filt F = drawFilt(c, n, nz, false); Content k = drawContent(c, 0.4, 1.), km = drawContent(c, 1, cd(0.3, 0.1)); bool fft = c.flip();
  c.say("%s -> %dx%dx%d filter %s %.5g %.5g %.5g fft=%d", g.str().c_str(), mx, mx, mz * np, F.nm(), F.a, F.b, F.c, fft); Fld f(g); Scalar *s = f.s; Grid e = fillGrid(k, n, nz, false, g.prec), m = fillGrid(km, n, nz, cx, g.prec); f.poisonGhosts(); scatterM(f, m); scatterV(f, m); void *p = s->m2Cpu(); int z0 = f.z0();
  for (int z = 0; z < lz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) f.putReal(p, fft ? ((size_t)z * n + y) * (n + 2) + x : ((size_t)z * n + y) * n + x, e.at(x, y, z + z0).real());
  if (fft) { Quiet q; fetchPlan("pSpecAx").run(FFT_FWD); } s->setM2(fft ? M2_ENERGY_FFT : M2_ENERGY); auto w = expect(e.d, F, n, nz, mx, mz, np);
  Scalar *o = reduce(s, mx, mz, FIELD_M2, F, c.flip()); c.check(o == s, "place", "the energy must be reduced in place"); c.check(s->Reduced() && s->rLength() == (size_t)mx && s->rDepth() == (size_t)mz, "dims", "reduced energy marked %d, %zu x %zu, asked for %d x %d", s->Reduced(), s->rLength(), s->rDepth(), mx, mz); c.check(s->Length() == (size_t)n && s->Depth() == (size_t)lz, "lattice", "lattice size changed"); c.check(s->m2Status() == M2_ENERGY, "status", "m2 status %d", (int)s->m2Status());
  compare(c, f, p, false, w, mx, mz, 30 * g.eps() * log2((double)n * n * nz) * (amax(e.d) + 1e-30), "m2"); Grid gm = gatherM(f), gv = gatherV(f); for (size_t i = 0; i < gm.d.size(); i++) if (gm.d[i] != m.d[i] || gv.d[i] != m.d[i]) { c.fail("source", "reducing the energy changed the field"); break; }
  c.nontrivial = k.kind != 0 && F.kind != 0 && mx < n; c.label(fft ? "from modes" : "from energy");
}
// a field read on a coarser grid is interpolated linearly, periodically, onto the lattice
LAW(C19, expand, 500, 14000, NP1 | NP2 | NP3) {
  Cfg g; int np = commSize(); g.type = c.pick<FieldType>({FIELD_SAXION, FIELD_AXION}); bool cx = g.type == FIELD_SAXION; g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); g.Ng = c.pick<int>({1, 2, 1, 3}); int n, lz, mx, mz; bool integer = c.chance(4, 10);
  if (integer) { int fx = c.range(2, 4), fz = c.range(2, 4); mx = c.range(2, 8); n = fx * mx; while (n % 8 || n % np) { mx++; n = fx * mx; } mz = c.range(1, np == 1 ? 5 : 3); lz = fz * mz; while (lz < g.Ng) { mz++; lz += fz; } } else { n = 2 * c.range(4, 12); while (n % 8 || n % np) n += 2; mx = c.range(1, n - 1); lz = c.range(std::max(2, g.Ng), std::max(g.Ng, np == 1 ? 12 : 7)); mz = c.range(1, lz - 1); } g.n = n; g.nz = lz * np; if (lz > n) { lz = n; mz = std::min(mz, lz - 1); g.nz = lz * np; } Content km = drawContent(c, 1, cd(0.3, 0.1)), kv = drawContent(c, 2, 0);
  c.say("%s from %dx%dx%d", g.str().c_str(), mx, mx, mz * np); Fld f(g); Scalar *s = f.s; Grid a = fillGrid(km, mx, mz * np, cx, g.prec), b = fillGrid(kv, mx, mz * np, cx, g.prec); f.poisonGhosts(); int r = commRank();
  for (int z = 0; z < mz; z++) for (int y = 0; y < mx; y++) for (int x = 0; x < mx; x++) { size_t i = ((size_t)z * mx + y) * mx + x; f.put(s->mStart(), i, a.at(x, y, z + r * mz)); f.put(s->vStart(), i, b.at(x, y, z + r * mz)); }
  { Quiet q; s->setReduced(true, mx, mz); simpleops::expandField(s); s->setReduced(false, 1, 1); } Grid gm = gatherM(f), gv = gatherV(f); int rem[3] = {0, 0, 0};
  for (int v = 0; v < 2; v++) { Grid &w = v ? b : a, &h = v ? gv : gm; double tol = 12 * g.eps() * (amax(w.d) + 1e-30) * (1 + n); bool bad = false;
    for (int z = 0; z < lz * np && !bad; z++) for (int y = 0; y < n && !bad; y++) for (int x = 0; x < n && !bad; x++) { cd e = linear(w, mx, mz, n, lz, x, y, z);
      if (!(std::abs(h.at(x, y, z) - e) <= tol)) { c.fail(v ? "v" : "m", "%s at (%d,%d,%d) is (%.9g,%.9g), linear interpolation of the coarse field gives (%.9g,%.9g)", v ? "v" : "m", x, y, z, h.at(x, y, z).real(), h.at(x, y, z).imag(), e.real(), e.imag()); bad = true; } } }
  (void)rem; c.nontrivial = km.kind != 0 && kv.kind != 0 && mx > 1; c.label(n % mx || lz % mz ? "fractional" : "integer"); c.label(cx ? "complex" : "angle");
}
