// C06: the automatic time step
#include "ref.h"
#include "propagator/propBase.h"
#include "propagator/allProp.h"
extern std::unique_ptr<PropBase> prop;
extern PropType pType;
using namespace ref;
namespace {
void draw(Case &c, Cfg &g) {
  g.type = c.pick<FieldType>({FIELD_SAXION, FIELD_AXION, FIELD_AXION_MOD, FIELD_PAXION}); g.n = c.pick<int>({8, 16, 32}); g.nz = 2 * commSize(); g.Ng = 1;
  g.frw = c.pick<double>({1, 1, 0.5, 2, 1.5, 0.7, 3}); if (c.chance(1, 8)) { g.mink = true; g.frw = 0; } g.zi = c.logreal(0.1, 20); g.L = c.logreal(0.3, 100);
  g.nqcd = c.pick<double>({7, 0, 2, 4.5, 8}); g.nqcdr = c.pick<double>({3, 0, 7}); g.indi3 = c.logreal(1e-3, 1e3); g.lambda = c.logreal(0.1, 1e5); g.lz2e = c.pick<double>({0, 2, 1}); g.pot = (VqcdType)(V_QCD1 | c.pick<int>({V_PQ1, V_PQ2, V_PQ1}));
  drawExpansion(c, g); double R = bg(g, g.zi).R; switch (c.range(0, 3)) { case 0: break; case 1: g.zth = R * c.real(1, 1.3); break; case 2: g.zth = R * c.logreal(1, 5); g.zrs = g.zth * c.real(1, 1.1); break; default: g.zth = R * c.logreal(0.3, 3); g.zrs = g.zth * 0.5; }
}
// fastest frequency of the lattice field at rest, with the second-order Laplacian
double omega(const Cfg &g, const Bg &b) { double k2 = 12 * pow(g.n / g.L, 2), ma = sqrt(b.mA2) * b.R, ms2 = (g.pot & V_PQ) == V_PQ2 ? 8 * b.lam : 2 * b.lam;
  switch (g.type) { case FIELD_SAXION: return std::max(sqrt(k2 + ma * ma), sqrt(k2 + ms2 * b.R * b.R)); case FIELD_PAXION: return k2 / (sqrt(k2 + ma * ma) + ma); default: return sqrt(k2 + ma * ma); } }
}
LAW(C06, step, 8000, 120000, NP1) {
  Cfg g; draw(c, g); double w1 = c.logreal(0.05, 3), w2 = c.logreal(0.05, 3), t = c.flip() ? g.zi : g.zi * c.real(0.6, 1.6); if (g.uec) t = std::min(t, 3.); c.say("%s step factors %g %g at %g", g.str().c_str(), w1, w2, t); Quiet q; Fld f(g); Cosmos &k = *f.s->BckGnd();
  double keep = wDz, d[2]; bool hit = false; for (int i = 0; i < 2; i++) { double w = i ? w2 : w1; wDz = w; d[i] = f.s->dzSize(t); if (t == g.zi) { double e = f.s->dzSize(); c.check(e == d[i], "now", "dzSize() %.17g is not dzSize(%g) %.17g", e, t, d[i]); }
    c.check(std::isfinite(d[i]) && d[i] > 0, "positive", "step %g", d[i]); if (!(d[i] > 0)) break;
    Bg b = bg(g, t); double om = omega(g, b); c.check(d[i] * om <= w * (1 + 1e-10), "stable", "step %g times the fastest frequency %g is %g, above the factor %g", d[i], om, d[i] * om, w);
    double H = sqrt(std::max(b.Rpp, 0.)), full = w / std::max({om, g.type == FIELD_SAXION ? H : 0., 0.});
    double R0 = k.R(t), R1 = k.R(t + d[i]), zt = g.zth; 
    if (R0 < zt && R1 > zt && !g.mink && g.frw != 0) { hit = true; double Rf = k.R(t + w / om); c.check(R1 - zt <= 0.0011 * (Rf - zt) + 1e-12 * zt, "threshold", "the step from R=%.9g ends at R=%.9g beyond the threshold %.9g (unlimited it would be %.9g)", R0, R1, zt, Rf); }
    else if (!(g.type == FIELD_SAXION && (R0 < zt && k.R(t + w / om) > zt))) { bool would = R0 < zt && k.R(t + full) > zt; if (!would) c.check(d[i] >= full * (1 - 1e-10), "small", "step %g is smaller than the %g that stability asks for", d[i], full); } 
    else if (R0 < zt && k.R(t + full) > zt) c.check(R1 > zt * (1 - 1e-12), "stuck", "limited by the threshold %g, the step from R=%g stays at R=%.12g before it", zt, R0, R1); }
  wDz = keep; if (!hit && c.fails.empty()) { double a = d[0] / w1, b = d[1] / w2; bool lim = false; for (int i = 0; i < 2; i++) { double R0 = k.R(t); double om = omega(g, bg(g, t)); if (R0 < g.zth && k.R(t + 1.001 * (i ? w2 : w1) / om) > g.zth) lim = true; } if (!lim) c.check(fabs(a - b) <= 1e-10 * a, "linear", "step over factor is %.12g and %.12g", a, b); }
  c.nontrivial = true; c.label(hit ? "threshold" : "free"); c.label("type" + std::to_string(g.type));
}
// following the automatic step reaches any later time, monotonically, and never with a step that straddles the threshold
LAW(C06, march, 400, 6000, NP1) {
  Cfg g; draw(c, g); double tf = g.zi * c.real(1.05, 2.5); g.L = std::max(g.L, g.zi * 0.3); if (g.uec) tf = std::min(tf, 4.); c.say("%s to %g", g.str().c_str(), tf); Quiet q; Fld f(g); double keep = wDz; wDz = c.real(0.2, 2); Cosmos &k = *f.s->BckGnd(); long n = 0; int cross = 0; double om0 = omega(g, bg(g, g.zi)), est = 0;
  for (int i = 0; i <= 64; i++) est += omega(g, bg(g, g.zi + (tf - g.zi) * i / 64)) / 65; est = est * (tf - g.zi) / wDz; (void)om0; if (est > 4e4) { wDz *= est / 4e4; est = 4e4; }
  while (*f.s->zV() < tf) { double t = *f.s->zV(), d = f.s->dzSize(); if (!(d > 0) || !std::isfinite(d)) { c.fail("positive", "step %g at %g", d, t); break; } double R0 = k.R(t), R1 = k.R(t + d); if (R0 < g.zth && R1 > g.zth && !g.mink) cross++; *f.s->zV() = t + d; f.s->updateR(); if (++n > 40 * est + 1000) { c.fail("stuck", "%ld steps and only at %g of %g (about %g expected)", n, *f.s->zV(), tf, est); break; } }
  c.check(cross <= 1, "threshold", "the threshold was crossed %d times", cross); wDz = keep; c.nontrivial = n > 3; c.label(cross ? "crosses the threshold" : "does not");
}
// the step of the default safety factor keeps small waves bounded for every Laplacian
static const double PI2 = 2 * M_PI;
LAW(C06, bounded, 60, 1000, NP1) {
  Cfg g; g.type = c.pick<FieldType>({FIELD_SAXION, FIELD_AXION, FIELD_AXION_MOD}); g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); g.Ng = c.range(1, 5); int lanes = (g.dp() ? 4 : 8) / (g.type == FIELD_SAXION ? 2 : 1); g.n = g.type == FIELD_AXION_MOD ? 2 * lanes * std::max(2, g.Ng) : 2 * g.Ng * lanes; if (g.n < 8) g.n = 8; g.nz = 2 * g.Ng + 2 * c.range(0, 2); g.mink = true; g.frw = 0; g.zi = 1; g.L = c.logreal(1, 30); g.nqcd = 0; double d = g.L / g.n;
  g.indi3 = c.pick<double>({0, 1. / d * c.logreal(0.1, 3), 0.01}); g.lambda = pow(c.logreal(0.1, 2) / d, 2) / 2; g.pot = (VqcdType)((g.type == FIELD_SAXION ? (int)V_QCD0 : (int)V_QCD1) | V_PQ1); double keep = wDz; wDz = c.real(0.3, 1.2); int N = 250; uint64_t sd = c.seed(); c.say("%s factor %g", g.str().c_str(), wDz);
  Fld f(g); double dz; { Quiet q; dz = f.s->dzSize(); } wDz = keep; double A = 1e-3; Grid m(g.n, g.nz), v(g.n, g.nz); bool cx = g.type == FIELD_SAXION;
  for (int z = 0; z < g.nz; z++) for (int y = 0; y < g.n; y++) for (int x = 0; x < g.n; x++) { uint64_t h = mix(sd ^ mix(((uint64_t)z << 40) ^ ((uint64_t)y << 20) ^ x)); double ck = (x + y + z) & 1 ? 1 : -1; double e = A * (ck + hreal(h)); m.at(x, y, z) = rndp(cx ? cd(1 + e, A * (ck + hreal(h + 1))) : cd(e, 0), g.prec); v.at(x, y, z) = 0; }
  scatterM(f, m); scatterV(f, v); pType = (PropType)(PROP_BASE | PROP_RKN4); { Quiet q; initPropagator(pType, f.s, g.pot, g.Ng); for (int i = 0; i < N; i++) propagate(f.s, dz); prop.reset(); }
  Grid r = gatherM(f); double mx = 0; for (auto &x : r.d) { double a = std::abs(cx ? x - cd(1, 0) : x); if (!(a <= mx)) mx = a; } 
  c.check(mx <= 60 * A * (cx ? 4 : 1), "bounded", "waves of amplitude %g grew to %g within %d steps of %g (spacing %g)", 2 * A, mx, N, dz, d); c.nontrivial = true; c.label("Ng" + std::to_string(g.Ng)); (void)PI2;
}
