// C20: line-of-sight averages and lattice slices in the measurement file against the field's own values
#include "ref.h"
#include "h5.h"
#include "io/readWrite.h"
#include "projector/projector.h"
#include <mpi.h>
#include <omp.h>
#include <math.h>
extern char outDir[], outName[];
using namespace ref;
static std::string measFile(int i) { char b[64]; snprintf(b, sizeof b, ".m.%05d", i); return std::string(outDir) + "/" + outName + b; }
static void geom(Case &c, Cfg &g, bool fold) {
  int np = commSize(); g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); g.Ng = c.pick<int>({1, 2, 1, 3}); int n = c.range(1, 6) * 4; while ((n * n * (g.cplx() ? 2 : 1) * g.prec) % 32 || (fold && n % 8)) n += 4; while (n % np && n < 24) n += (fold ? 8 : 4); if (n % np) n = 12 * (fold ? 2 : 1); g.n = n; int lz = c.range(std::max(1, g.Ng), 9); lz = std::min(lz, n * g.Ng); g.nz = lz * np; if (g.nz < 2) g.nz = 2 * np; }
static double filt(int k, double a, double x) { switch (k) { case 0: return x; case 1: return x * x; case 2: return x > a ? 1. : 0.; case 3: return a; case 4: return a * x - 2; default: return 1. / (1 + x * x); } }
LAW(C20, projection, 500, 14000, NP1 | NP2 | NP3) {
  Cfg g; g.type = c.pick<FieldType>({FIELD_SAXION, FIELD_AXION, FIELD_SAXION, FIELD_AXION, FIELD_PAXION}); bool fold = g.type != FIELD_PAXION && c.flip(); geom(c, g, fold); int n = g.n, nz = g.nz, np = commSize(), lz = nz / np; int k = c.range(0, 5); double a = c.real(-1, 2); bool file = c.flip(); int idx = c.range(0, 99999);
  Content e = drawContent(c, 0.4, 1.), km = drawContent(c, 1, cd(0.3, 0.1)); StatusM2 st = c.pick<StatusM2>({M2_ENERGY, M2_ANTIMASK, M2_MASK, M2_ENERGY_SMOOTH, M2_ENERGY}); c.say("%s filter %d(%.4g) folded=%d status=%d file=%d", g.str().c_str(), k, a, fold, (int)st, file);
  Fld f(g); Scalar *s = f.s; if (fold) f.fold(); Grid m = fillGrid(km, n, nz, f.cplx(), g.prec), en = fillGrid(e, n, nz, false, g.prec); f.poisonGhosts(); scatterM(f, m); scatterV(f, m); int z0 = f.z0(); size_t S = (size_t)n * n;
  for (int z = 0; z < lz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) f.putReal(s->m2Cpu(), z * S + y * n + x, en.at(x, y, z + z0).real()); s->setM2(st);
  { Quiet q; if (file) createMeas(s, idx); projectField(s, [k, a](double x) { return filt(k, a, x); }); if (file) { writePMapHdf5(s); writePMapHdf5s(s, (char *)"/map/Pother"); destroyMeas(); } }
  if (commRank() == 0) { std::vector<double> fl, f2; int es = 0; if (file) { H5 h(measFile(idx)); c.check(h.ok(), "file", "no measurement file %s", measFile(idx).c_str()); fl = h.data("/map/P", &es); f2 = h.data("/map/Pother"); c.check(fl.size() == S && f2.size() == S && es == (int)g.prec, "shape", "/map/P has %zu elements of %d bytes and the renamed map %zu, surface has %zu of %d", fl.size(), es, f2.size(), S, (int)g.prec); }
    for (size_t i = 0; i < S; i++) { double w = 0, mx = 0; for (int z = 0; z < nz; z++) { double q = filt(k, a, en.at(i % n, i / n, z).real()); w += q; mx = std::max(mx, std::abs(q)); } w /= nz; double tol = 4 * g.eps() * (nz + 8) * (mx + 1e-30), got = f.real(s->mFrontGhost(), i);
      if (!(std::abs(got - w) <= tol)) { c.fail("projection", "projected value at (%zu,%zu) is %.9g, the mean along the line of sight %.9g (tolerance %.2g)", i % n, i / n, got, w, tol); break; }
      if (file && fl.size() == S && f2.size() == S && (fl[i] != got || f2[i] != got)) { c.fail("mapP", "projection stored at (%zu,%zu) is %.9g and %.9g, computed %.9g", i % n, i / n, fl[i], f2[i], got); break; } } }
  Grid gm = gatherM(f), gv = gatherV(f); for (size_t i = 0; i < gm.d.size(); i++) if (gm.d[i] != m.d[i] || gv.d[i] != m.d[i]) { c.fail("source", "projection changed the field at site %zu", i); break; }
  for (int z = 0, bad = 0; z < lz && !bad; z++) for (size_t i = 0; i < S; i++) if (f.real(s->m2Cpu(), z * S + i) != en.at(i % n, i / n, z + z0).real()) { c.fail("m2", "projection changed the projected data"); bad = 1; break; }
  c.nontrivial = e.kind != 0 && k != 3; c.label(file ? "file" : "memory"); if (file && commRank() == 0) remove(measFile(idx).c_str()); }
LAW(C20, slices, 500, 14000, NP1 | NP2 | NP3) {
  Cfg g; g.type = c.pick<FieldType>({FIELD_SAXION, FIELD_AXION, FIELD_AXION_MOD}); bool fold = c.flip(); geom(c, g, fold); int n = g.n, nz = g.nz, np = commSize(), lz = nz / np, idx = c.range(0, 99999), sl = c.range(0, nz - 1), sx = c.range(0, n - 1), se = c.range(0, nz - 1), pass = c.range(0, 7); bool twice = c.chance(1, 4); if (c.chance(1, 8)) sl = nz - 1; if (c.chance(1, 8)) se = nz - 1; if (c.chance(1, 12)) sx = n;
  Content km = drawContent(c, 1, cd(0.3, 0.1)), kv = drawContent(c, 2, 0), e = drawContent(c, 0.4, 1.); c.say("%s folded=%d slices z=%d x=%d energy z=%d order=%d", g.str().c_str(), fold, sl, sx, se, pass); Fld f(g); Scalar *s = f.s; if (fold) f.fold(); bool cx = f.cplx(); Grid m = fillGrid(km, n, nz, cx, g.prec), v = fillGrid(kv, n, nz, cx, g.prec), en = fillGrid(e, n, nz, false, g.prec); f.poisonGhosts(); scatterM(f, m); scatterV(f, v); int z0 = f.z0(); size_t S = (size_t)n * n;
  for (int z = 0; z < lz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) f.putReal(s->m2Cpu(), z * S + y * n + x, en.at(x, y, z + z0).real()); s->setM2(c.pick<StatusM2>({M2_ENERGY, M2_MASK_TEST, M2_ANTIMASK, M2_MASK}));
  bool any = pass & 7; if (!any) pass = 7; { Quiet q; createMeas(s, idx); if (pass & 4) writeEMapHdf5s(s, se, (char *)"/map/E"); if (pass & 1) writeMapHdf5s(s, sl); if (pass & 2) writeMapHdf5s2(s, sx); if ((pass & 4) && twice) writeEMapHdf5s(s, sl, (char *)"/map/other"); destroyMeas(); } if (sx == n) sx = 0;
  if (commRank() == 0) { H5 h(measFile(idx)); if (!h.ok()) { c.fail("file", "no measurement file %s", measFile(idx).c_str()); return; }
    auto cmp = [&](const char *nm, bool cxx, size_t N, auto want) { int es; auto d = h.data(nm, &es); int k = cxx ? 2 : 1; if (d.size() != N * k || es != (int)g.prec) { c.fail("shape", "%s has %zu elements of %d bytes, expected %zu of %d", nm, d.size(), es, N * k, (int)g.prec); return; } for (size_t i = 0; i < N; i++) { cd w = want(i), q = cxx ? cd(d[2 * i], d[2 * i + 1]) : cd(d[i], 0); if (q != w) { c.fail(nm, "%s element %zu is (%.9g,%.9g), the field there is (%.9g,%.9g)", nm, i, q.real(), q.imag(), w.real(), w.imag()); return; } } };
    if (pass & 1) { cmp("/map/m", cx, S, [&](size_t i) { return m.at(i % n, i / n, sl); }); cmp("/map/v", cx, S, [&](size_t i) { return v.at(i % n, i / n, sl); }); }
    if (pass & 2) { cmp("/mapp/m", cx, (size_t)n * nz, [&](size_t i) { return m.at(sx, i % n, i / n); }); cmp("/mapp/v", cx, (size_t)n * nz, [&](size_t i) { return v.at(sx, i % n, i / n); }); }
    if (pass & 4) { cmp("/map/E", false, S, [&](size_t i) { return en.at(i % n, i / n, se); }); if (twice) cmp("/map/other", false, S, [&](size_t i) { return en.at(i % n, i / n, sl); }); }
    c.check(h.num("/", "z") == g.zi && h.num("/", "Size") == n && h.num("/", "Depth") == nz, "attr", "measurement file says z=%g Size=%g Depth=%g", h.num("/", "z"), h.num("/", "Size"), h.num("/", "Depth")); }
  Grid gm = gatherM(f), gv = gatherV(f); for (size_t i = 0; i < gm.d.size(); i++) if (gm.d[i] != m.d[i] || gv.d[i] != v.d[i]) { c.fail("source", "writing the slices changed the field at site %zu", i); break; } c.check(s->Folded() == fold, "folded", "writing the slices left the field %sfolded", s->Folded() ? "" : "un");
  commSync(); if (commRank() == 0) remove(measFile(idx).c_str()); c.nontrivial = km.kind != 0 && kv.kind != 0 && n > 1; c.label(fold ? "folded" : "plain"); if (sl / lz) c.label("slice of a later process"); }
