// C02: one step of the axion angle against the reference Runge-Kutta-Nystrom step
#include "ref.h"
#include "propagator/propBase.h"
#include "propagator/allProp.h"
extern std::unique_ptr<PropBase> prop;
extern PropType pType;
using namespace ref;
namespace {
const std::vector<int> POT = {V_QCD1 | V_PQ1, V_QCD0 | V_PQ1, V_QCDC | V_PQ1, V_QCDL | V_PQ1, V_QCD1 | V_PQ1 | V_DAMP_RHO, V_QCDC | V_PQ1 | V_EVOL_THETA};
void bgdraw(Case &c, Cfg &g) {
  g.frw = c.pick<double>({1, 1, 0.5, 2, 1.5, 0.7}); if (c.chance(1, 8)) { g.mink = true; g.frw = 0; }
  g.zi = c.logreal(0.3, 8); g.L = c.logreal(1, 20); g.nqcd = c.pick<double>({7, 0, 2, 4.5}); g.nqcdr = c.pick<double>({3, 0, 7}); 
  drawExpansion(c, g); double R = bg(g, g.zi).R;
  switch (c.range(0, 3)) { case 0: break; case 1: g.zth = R * c.real(0.5, 1.5); break; case 2: g.zth = R * c.real(0.4, 1.2); g.zrs = g.zth * c.real(1, 1.5); break; default: g.zth = R * c.real(0.6, 1.4); g.zrs = g.zth * 0.5; }
}
void sizes(Case &c, Cfg &g, bool smallRows, int lzmode) {
  int np = commSize(), lanes = g.dp() ? 4 : 8; g.Ng = c.pick<int>({1, 2, 3, 4, 5, 1});
  if (!smallRows) { int lo = 2 * g.Ng * lanes; g.n = lo + lanes * c.range(0, 3); if (lo > 48) { g.Ng = std::min(g.Ng, 3); g.n = 2 * g.Ng * lanes; } if (g.n > 56) g.n = 56; }
  else { g.Ng = std::max(2, g.Ng); int lo = (g.Ng + lanes) / lanes; int hi = 2 * g.Ng - 1; if (lo > hi) lo = hi; g.n = lanes * c.range(lo, hi); if (g.n > 48) g.n = 48; }
  int lz = lzmode == 0 ? (c.flip() ? g.Ng : 2 * g.Ng + c.range(0, 4)) : lzmode == 1 ? 2 * g.Ng + c.range(0, 4) : g.Ng + c.range(1, std::max(1, g.Ng - 1));
  if (lzmode == 2 && g.Ng < 2) { g.Ng = 2; lz = 3; g.n = std::max(g.n, 4 * lanes); }
  if (lzmode == 1 && g.n <= 16 && c.chance(1, 10)) lz = g.n + c.range(1, 9);
  if (g.n % np) g.n = (g.n + lanes * np - 1) / (lanes * np) * lanes * np;
  g.nz = lz * np; }
double perr(double a, double b, double P) { double d = fabs(a - b); return P > 0 ? std::min(d, fabs(d - P)) : d; }
}
static void oneStep(Case &c, bool smallRows, int lzmode, bool mod) {
  Cfg g; g.type = mod ? FIELD_AXION_MOD : FIELD_AXION; g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); sizes(c, g, smallRows, lzmode);
  bgdraw(c, g); Bg b0 = bg(g, g.zi); double delta = g.L / g.n; g.pot = (VqcdType)c.pick<int>(POT); g.lambda = 1;
  double dz = delta * c.real(0.1, 0.5), od2 = 1 / (delta * delta); int steps = c.range(1, 2); bool back = c.chance(1, 3); dz = std::min(dz, (back ? 0.2 : 0.6) * g.zi / steps);
  // mass such that its force matters within the step: mA2 R^2 dz^2 ~ 0.02..0.5
  if (g.uec) dz = std::min(dz, 0.5 / (b0.R * sqrt(bg(g, g.zi + steps * dz).mA2)));
  double want = c.logreal(0.02, 0.5) / (dz * dz * b0.R * b0.R); g.indi3 = sqrt(want / std::max(1e-300, b0.mA2)) * g.indi3;
  // the mode-crossing tests need angles well spread over the period; the plain field is not confined to it
  double spread = mod ? c.pick<double>({0.5, 1.5, 3.1}) : c.pick<double>({0.5, 3, 12});
  Content km = drawContent(c, b0.R * spread, cd(c.real(-1, 1) * b0.R * (mod ? 3.1 - spread : 1), 0)), kv = drawContent(c, b0.R / dz * 0.2, 0);
  if (back) dz = -dz;
  unsigned by = 0, bz = 0; int lz = g.nz / commSize(), lanes = g.dp() ? 4 : 8; bool blk = c.flip(); if (blk) { by = c.range(1, g.n / lanes + 1); bz = c.range(1, lz + 1); }
  c.say("%s dz=%g steps=%d blocks=%u,%u km=%d kv=%d spread=%g", g.str().c_str(), dz, steps, by, bz, km.kind, kv.kind, spread);
  Fld f(g); f.poisonGhosts();
  Grid m = fillGrid(km, g.n, g.nz, false, g.prec), v = fillGrid(kv, g.n, g.nz, false, g.prec);
  if (mod) for (auto &x : m.d) x = rndp(wrap(x.real(), 2 * M_PI * b0.R), g.prec);
  scatterM(f, m); scatterV(f, v); f.s->setM2(M2_ENERGY);
  pType = (PropType)(PROP_BASE | PROP_RKN4); initPropagator(pType, f.s, g.pot, g.Ng);
  if (blk) { prop->SetBlockY(by); prop->SetBlockZ(bz); }
  double t = g.zi, sc = 0, mx = maxabs(m), vx = maxabs(v);
  // in the modular variant a difference close to half a period may be wrapped either way: the distance of the reference run to such a tie is tracked
  double tie = 1e300;
  for (int i = 0; i < steps; i++) { propagate(f.s, dz); sc = std::max(sc, axStep(g, m, v, t, dz, od2, &tie)); mx = std::max(mx, maxabs(m)); vx = std::max(vx, maxabs(v)); }
  prop.reset();
  c.near(*f.s->zV(), t, 1e-13 * (fabs(t) + fabs(dz)), "time", "time after the step"); c.near(*f.s->RV(), bg(g, t).R, 1e-12 * bg(g, t).R, "R", "scale factor after the step");
  c.check(f.s->m2Status() == M2_DIRTY, "m2flag", "after a step the auxiliary field is still marked as holding the energy");
  double scs = std::max(sc, 6 * mx * od2 * 4 / 3), a = fabs(dz), tv = 24 * steps * g.eps() * (vx + 1.5 * a * scs), tm = 24 * steps * g.eps() * (mx + 2 * a * vx + a * a * scs);
  double P = mod ? 2 * M_PI * bg(g, t).R : 0;
  if (mod && tie < 2 * tm) { c.discarded = true; return; }
  Grid gm = gatherM(f), gv = gatherV(f); double wm = 0, wv = 0;
  for (int z = 0; z < g.nz; z++) for (int y = 0; y < g.n; y++) for (int x = 0; x < g.n; x++) {
    double em = perr(gm.at(x, y, z).real(), m.at(x, y, z).real(), P), ev = fabs(gv.at(x, y, z).real() - v.at(x, y, z).real()); wm = std::max(wm, em / tm); wv = std::max(wv, ev / tv);
    if (!(ev <= tv)) c.fail("velocity", "velocity at site (%d,%d,%d): got %.10g want %.10g, tolerance %.3g", x, y, z, gv.at(x, y, z).real(), v.at(x, y, z).real(), tv);
    if (!(em <= tm)) c.fail("field", "field at site (%d,%d,%d): got %.10g want %.10g, tolerance %.3g", x, y, z, gm.at(x, y, z).real(), m.at(x, y, z).real(), tm); }
  if (getenv("PBT_M")) fprintf(stderr, "M %d %d pot=%d steps=%d worst m %.3g v %.3g\n", (int)g.prec, g.Ng, g.pot, steps, wm, wv);
  c.nontrivial = km.kind != 0; c.label("Ng" + std::to_string(g.Ng)); c.label(g.dp() ? "double" : "single"); c.label("pot" + std::to_string(g.pot & V_QCD)); c.label(mod ? "mod" : "plain");
}
LAW(C02, step, 500, 9000, NP1 | NP2 | NP3) { oneStep(c, false, 0, false); }
LAW(C02, step_mod, 150, 3000, NP1 | NP2) { oneStep(c, false, 0, true); }
LAW(C02, thin_slab, 40, 600, NP1 | NP2) { oneStep(c, false, 2, c.flip()); }
LAW(C02, short_rows, 40, 600, NP1) { oneStep(c, true, 1, false); }

// adding one period to any set of sites changes nothing but the representation
static void shifted(Case &c, bool expanding) {
  Cfg g; g.type = FIELD_AXION_MOD; g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); sizes(c, g, false, 1);
  bgdraw(c, g); g.grav = -1; g.uec = false; if (expanding) { g.mink = false; g.frw = c.pick<double>({1, 0.5, 2}); } else { g.mink = true; g.frw = 0; }
  Bg b0 = bg(g, g.zi); double delta = g.L / g.n; g.pot = (VqcdType)c.pick<int>({V_QCD1 | V_PQ1, V_QCD0 | V_PQ1, V_QCDC | V_PQ1}); g.lambda = 1;
  double dz = std::min(delta * c.real(0.1, 0.5), 0.3 * g.zi), od2 = 1 / (delta * delta), want = c.logreal(0.02, 0.5) / (dz * dz * b0.R * b0.R); g.indi3 = sqrt(want / std::max(1e-300, b0.mA2)) * g.indi3;
  Content km = drawContent(c, b0.R * c.pick<double>({0.5, 1.5, 3.1}), 0), kv = drawContent(c, b0.R / dz * 0.2, 0); uint64_t sh = c.seed();
  c.say("%s dz=%g km=%d kv=%d", g.str().c_str(), dz, km.kind, kv.kind);
  double P = 2 * M_PI * b0.R; Grid m = fillGrid(km, g.n, g.nz, false, g.prec), v = fillGrid(kv, g.n, g.nz, false, g.prec); 
  for (auto &x : m.d) x = rndp(wrap(x.real(), P), g.prec);
  Grid m2 = m, v2 = v; int moved = 0; for (size_t i = 0; i < m.d.size(); i++) if (hreal(mix(sh) ^ i) > 0.3 && sh && (m.d[i].real() > 0) == (sh & 1)) { double s = m.d[i].real() > 0 ? -P : P; m2.d[i] = rndp(m.d[i].real() + s, g.prec); v2.d[i] = rndp(v.d[i].real() + (s > 0 ? 1 : -1) * 2 * M_PI * b0.Rp, g.prec); moved++; }
  Grid out[2][2];
  for (int k = 0; k < 2; k++) { Fld f(g); f.poisonGhosts(); scatterM(f, k ? m2 : m); scatterV(f, k ? v2 : v); pType = (PropType)(PROP_BASE | PROP_RKN4); initPropagator(pType, f.s, g.pot, g.Ng); propagate(f.s, dz); prop.reset(); out[k][0] = gatherM(f); out[k][1] = gatherV(f); }
  double t = g.zi, tie = 1e300; double sc = axStep(g, m, v, t, dz, od2, &tie), mx = std::max(maxabs(m), P), vx = maxabs(v), a = fabs(dz), tv = 64 * g.eps() * (vx + 1.5 * a * (sc + 8 * mx * od2)), tm = 64 * g.eps() * (mx + 2 * a * vx + a * a * (sc + 8 * mx * od2));
  if (tie < 2 * tm) { c.discarded = true; return; }
  double P1 = 2 * M_PI * bg(g, t).R;
  for (size_t i = 0; i < m.d.size(); i++) { double em = perr(out[0][0].d[i].real(), out[1][0].d[i].real(), P1), dv = out[1][1].d[i].real() - out[0][1].d[i].real(), q = 2 * M_PI * bg(g, t).Rp, ev = fabs(dv - q * (expanding && q ? std::round(dv / q) : 0));
    if (!(em <= tm)) c.fail(expanding ? "branch" : "field", "site %zu: %.10g and, with periods added to some sites, %.10g differ by no multiple of the period %.10g", i, out[0][0].d[i].real(), out[1][0].d[i].real(), P1);
    if (!(ev <= tv)) c.fail(expanding ? "branch" : "velocity", "site %zu: velocity %.10g became %.10g when periods were added to some sites", i, out[0][1].d[i].real(), out[1][1].d[i].real()); }
  c.nontrivial = moved > 0;
}
LAW(C02, mod_shift, 60, 800, NP1 | NP2) { shifted(c, false); }
LAW(C02, mod_shift_expanding, 30, 300, NP1) { shifted(c, true); }
// two neighbours exactly half a period apart: either sign of the difference is right, zero is not
LAW(C02, mod_tie, 30, 200, NP1) {
  Cfg g; g.type = FIELD_AXION_MOD; g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); g.Ng = 1; g.n = 16; g.nz = 4; g.mink = true; g.frw = 0; g.zi = c.real(1, 2); g.L = c.real(2, 9); g.indi3 = 0; g.pot = (VqcdType)(V_QCD0 | V_PQ1);
  double delta = g.L / g.n, h = g.prec == FIELD_SINGLE ? (double)((float)(2. * M_PI)) / 2 : M_PI; int X = c.range(0, 15), Y = c.range(0, 15), Z = c.range(0, 3), half = c.range(1, 2);
  double off = half == 1 ? 0 : -h; c.say("%s delta at %d,%d,%d base %g", g.str().c_str(), X, Y, Z, off);
  Fld f(g); Grid m(g.n, g.nz), v(g.n, g.nz); for (auto &x : m.d) x = off; m.at(X, Y, Z) = off + h; scatterM(f, m); scatterV(f, v);
  double dz = 0.01 * delta; pType = (PropType)(PROP_BASE | PROP_RKN4); initPropagator(pType, f.s, g.pot, 1); propagate(f.s, dz); prop.reset();
  Grid gv = gatherV(f); double want = h / (delta * delta) * dz;
  for (int d = 0; d < 6; d++) { int x = X + (d == 0) - (d == 1), y = Y + (d == 2) - (d == 3), z = Z + (d == 4) - (d == 5); c.near(fabs(gv.at(x, y, z).real()), want, 0.02 * want, "tie", "kick of neighbour %d of a site half a period away", d); }
  c.nontrivial = true;
}
