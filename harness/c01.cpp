// C01: one step of the complex field against the reference Runge-Kutta-Nystrom step
#include "ref.h"
#include "propagator/propBase.h"
#include "propagator/allProp.h"
extern std::unique_ptr<PropBase> prop;
extern PropType pType;
using namespace ref;
namespace {
const std::vector<int> QCD = {V_QCD1, V_QCD0, V_QCD2, V_QCDC, V_QCD1};
const std::vector<int> VAR = {0, 0, V_EVOL_THETA, V_EVOL_RHO, V_DAMP_RHO, V_DAMP_RHO | V_EVOL_RHO, V_DAMP_ALL, V_DAMP_ALL | V_EVOL_THETA};
void bgdraw(Case &c, Cfg &g) {
  g.frw = c.pick<double>({1, 1, 0.5, 2, 1.5, 0.7}); if (c.chance(1, 8)) { g.mink = true; g.frw = 0; }
  g.zi = c.logreal(0.3, 8); g.L = c.logreal(1, 20); g.nqcd = c.pick<double>({7, 0, 2, 4.5}); g.nqcdr = c.pick<double>({3, 0, 7}); 
  drawExpansion(c, g); double R = bg(g, g.zi).R;
  switch (c.range(0, 3)) { case 0: break; case 1: g.zth = R * c.real(0.5, 1.5); break; case 2: g.zth = R * c.real(0.4, 1.2); g.zrs = g.zth * c.real(1, 1.5); break; default: g.zth = R * c.real(0.6, 1.4); g.zrs = g.zth * 0.5; }
  g.lz2e = c.pick<double>({0, 2}); g.ltype = g.lz2e == 2 ? LAMBDA_Z2 : LAMBDA_FIXED;
}
}
static void oneStep(Case &c, bool smallRows, int lzmode, bool lowmem) {
  Cfg g; int np = commSize(); g.type = FIELD_SAXION; g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); g.lowmem = lowmem;
  int lanes = g.dp() ? 2 : 4; g.Ng = c.pick<int>({1, 2, 3, 4, 5, 1});
  if (!smallRows) { int lo = (2 * g.Ng * lanes + lanes - 1) / lanes * lanes; g.n = lo + lanes * c.range(0, 3); if (g.n < 8) g.n = 8; if (g.n > 40) g.n = 40; }
  else { g.Ng = std::max(2, g.Ng); int mn = g.Ng + 1; int lo = (mn + lanes - 1) / lanes; int hi = 2 * g.Ng - 1; if (lo > hi) lo = hi; g.n = lanes * c.range(lo, hi); }
  int lz = lzmode == 0 ? (c.flip() ? g.Ng : 2 * g.Ng + c.range(0, 4)) : lzmode == 1 ? 2 * g.Ng + c.range(0, 4) : g.Ng + c.range(1, std::max(1, g.Ng - 1));
  if (lzmode == 2 && g.Ng < 2) { g.Ng = 2; lz = 3; if (g.n < 4 * lanes) g.n = 4 * lanes; }
  if (lzmode == 1 && g.n <= 16 && c.chance(1, 10)) lz = g.n + c.range(1, 9);
  if (g.n % np) { g.n = (g.n + lanes * np - 1) / (lanes * np) * lanes * np; }
  g.nz = lz * np; bgdraw(c, g); Bg b0 = bg(g, g.zi); double delta = g.L / g.n; 
  g.pot = (VqcdType)(V_PQ1 | c.pick<int>(QCD) | c.pick<int>(VAR)); if (lowmem) g.pot = (VqcdType)(g.pot & ~V_EVOL_THETA);
  double dz = delta * c.real(0.1, 0.5); double od2 = 1 / (delta * delta);
  // the time itself stays positive and away from the singular t=0
  int steps = c.range(1, 2); bool back = c.chance(1, 3); dz = std::min(dz, (back ? 0.2 : 0.6) * g.zi / steps);
  if (g.uec) dz = std::min(dz, 0.5 / (b0.R * sqrt(bg(g, g.zi + steps * dz).mA2)));
  // couplings such that every term matters within the step without making it stiff
  g.lambda = c.logreal(0.05, 0.5) / (dz * dz * b0.R * b0.R) * pow(b0.R, g.lz2e); double want = c.logreal(0.02, 0.3) / (dz * dz * b0.R * b0.R); g.indi3 = sqrt(want / std::max(1e-300, bg(g, g.zi).mA2)) * g.indi3;
  if (g.pot & V_DAMP) { g.gamma = c.real(0.05, back ? 0.3 : 1.5) * b0.R / dz;   /* friction amplifies backward in time */ if (c.flip()) { g.dectime = c.real(0.5, 2) * b0.R * b0.R; } }
  bool singular = (g.pot & (V_EVOL | V_DAMP_RHO)) || (g.pot & V_QCD) == V_QCDC || (g.pot & V_QCD) == V_QCDL;
  double ph = c.real(0, 2 * M_PI); cd base = singular ? std::polar(b0.R, ph) : std::polar(b0.R * c.real(0, 1.2), ph);
  Content km = drawContent(c, b0.R * (singular ? 0.35 : 1.0), base), kv = drawContent(c, b0.R / dz * 0.2, 0);
  if (back) dz = -dz;
  unsigned bx = 0, by = 0, bz = 0; bool blk = c.flip(); if (blk) { by = c.range(1, g.n / lanes + 1); bz = c.range(1, lz + 1); (void)bx; }
  c.say("%s dz=%g steps=%d blocks=%u,%u km=%d kv=%d", g.str().c_str(), dz, steps, by, bz, km.kind, kv.kind);
  Fld f(g); f.poisonGhosts();
  Grid m = fillGrid(km, g.n, g.nz, true, g.prec), v = fillGrid(kv, g.n, g.nz, true, g.prec); scatterM(f, m); scatterV(f, v);
  pType = (PropType)(PROP_BASE | PROP_RKN4); initPropagator(pType, f.s, g.pot, g.Ng);
  if (blk) { prop->SetBlockY(by); prop->SetBlockZ(bz); }
  double t = g.zi, sc = 0, mx = maxabs(m), vx = maxabs(v);
  for (int i = 0; i < steps; i++) { propagate(f.s, dz); sc = std::max(sc, saxStep(g, m, v, t, dz, od2)); mx = std::max(mx, maxabs(m)); vx = std::max(vx, maxabs(v)); }
  prop.reset();
  c.near(*f.s->zV(), t, 1e-13 * (fabs(t) + fabs(dz)), "time", "time after the step"); c.near(*f.s->RV(), bg(g, t).R, 1e-12 * bg(g, t).R, "R", "scale factor after the step");
  double scs = std::max(sc, 6 * mx * od2 * 4 / 3), a = fabs(dz), amp = singular ? 4 : 1, tv = 24 * amp * steps * f.g.eps() * (vx + 1.5 * a * scs), tm = 24 * amp * steps * f.g.eps() * (mx + 2 * a * vx + a * a * scs);
  double wm = 0, wv = 0; 
  Grid gm = gatherM(f), gv = gatherV(f);
  auto where = [&](int x, int y, int z) { bool fx = x < g.Ng || x >= g.n - g.Ng, fy = y < g.Ng || y >= g.n - g.Ng, fz = (z % lz) < g.Ng || (z % lz) >= lz - g.Ng; return std::string(fx || fy || fz ? "face" : "bulk"); };
  int badm = 0, badv = 0;
  for (int z = 0; z < g.nz; z++) for (int y = 0; y < g.n; y++) for (int x = 0; x < g.n; x++) {
    double em = std::abs(gm.at(x, y, z) - m.at(x, y, z)), ev = std::abs(gv.at(x, y, z) - v.at(x, y, z)); if (!(em <= tm)) badm++; if (!(ev <= tv)) badv++; wm = std::max(wm, em / tm); wv = std::max(wv, ev / tv); 
    if (!(ev <= tv)) c.fail("velocity", "velocity at %s site (%d,%d,%d): got (%.10g,%.10g) want (%.10g,%.10g), tolerance %.3g", where(x, y, z).c_str(), x, y, z, gv.at(x, y, z).real(), gv.at(x, y, z).imag(), v.at(x, y, z).real(), v.at(x, y, z).imag(), tv);
    if (!(em <= tm)) c.fail("field", "field at %s site (%d,%d,%d): got (%.10g,%.10g) want (%.10g,%.10g), tolerance %.3g", where(x, y, z).c_str(), x, y, z, gm.at(x, y, z).real(), gm.at(x, y, z).imag(), m.at(x, y, z).real(), m.at(x, y, z).imag(), tm); }
  if (getenv("PBT_M")) fprintf(stderr, "M %d %d pot=%d steps=%d worst m %.3g v %.3g bad %d %d sing %d\n", (int)g.prec, g.Ng, g.pot, steps, wm, wv, badm, badv, singular);
  c.nontrivial = km.kind != 0; c.label("Ng" + std::to_string(g.Ng)); c.label(g.dp() ? "double" : "single"); c.label("pot" + std::to_string(g.pot)); if (f.s->Folded()) c.label("folded");
}
LAW(C01, step, 700, 12000, NP1 | NP2 | NP3) { oneStep(c, false, 0, false); }
LAW(C01, thin_slab, 60, 800, NP1 | NP2) { oneStep(c, false, 2, false); }
LAW(C01, short_rows, 60, 800, NP1) { oneStep(c, true, 1, false); }
LAW(C01, lowmem_step, 60, 800, NP1 | NP2) { oneStep(c, false, 1, true); }
