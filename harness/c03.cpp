// C03: convergence of the default integrator to the continuum-time solution of the lattice equation
#include "ref.h"
#include "propagator/propBase.h"
#include "propagator/allProp.h"
extern std::unique_ptr<PropBase> prop;
extern PropType pType;
using namespace ref;
namespace {
// acceleration of the whole lattice at time t
void accel(const Cfg &g, double t, const Grid &m, Grid &a, double od2) {
  Bg b = bg(g, t); double R = b.R, R2 = R * R; bool cx = g.type == FIELD_SAXION;
  for (int z = 0; z < m.nz; z++) for (int y = 0; y < m.n; y++) for (int x = 0; x < m.n; x++) { cd e = m.at(x, y, z), r = lapl(m, x, y, z, g.Ng, od2) + b.Rpp * e; double a2 = std::norm(e);
    if (cx) { if ((g.pot & V_PQ) == V_PQ1) r -= b.lam * (a2 - R2) * e; else if ((g.pot & V_PQ) == V_PQ2) r -= 2 * b.lam / (R2 * R2) * (a2 * a2 - R2 * R2) * a2 * e;
      switch (g.pot & V_QCD) { case V_QCD1: r += b.mA2 * R2 * R; break; case V_QCD2: r += 0.5 * b.mA2 * R2 * std::conj(e); break; case V_QCDC: { double th = std::arg(e); r += -b.mA2 * R2 * R2 * sin(th) / std::abs(e) * cd(-sin(th), cos(th)); break; } default: break; } }
    else switch (g.pot & V_QCD) { case V_QCD1: case V_QCDC: r -= b.mA2 * R2 * R * sin(e.real() / R); break; case V_QCDL: r -= b.mA2 * R2 * e; break; default: break; }
    a.at(x, y, z) = r; }
}
// classical Runge-Kutta of fourth order, an integrator of another kind
void rk4(const Cfg &g, Grid &m, Grid &v, double t, double T, int N, double od2) {
  double h = T / N; size_t S = m.d.size(); Grid q = m, k[4] = {m, m, m, m}, l[4] = {m, m, m, m};
  for (int s = 0; s < N; s++) { static const double A[4] = {0, 0.5, 0.5, 1};
    for (int j = 0; j < 4; j++) { for (size_t i = 0; i < S; i++) { q.d[i] = m.d[i] + (j ? A[j] * h * l[j - 1].d[i] : cd(0)); l[j].d[i] = v.d[i] + (j ? A[j] * h * k[j - 1].d[i] : cd(0)); } accel(g, t + (s + A[j]) * h, q, k[j], od2); }
    for (size_t i = 0; i < S; i++) { m.d[i] += h / 6 * (l[0].d[i] + 2. * l[1].d[i] + 2. * l[2].d[i] + l[3].d[i]); v.d[i] += h / 6 * (k[0].d[i] + 2. * k[1].d[i] + 2. * k[2].d[i] + k[3].d[i]); } }
}
void draw(Case &c, Cfg &g, Content &km, Content &kv, double &T, bool cx, int &N) {
  g.prec = FIELD_DOUBLE; g.type = cx ? FIELD_SAXION : c.pick<FieldType>({FIELD_AXION, FIELD_AXION, FIELD_AXION_MOD}); g.Ng = c.pick<int>({1, 1, 2}); g.n = cx ? 4 * g.Ng : 8 * g.Ng; if (g.n % commSize()) g.n *= commSize(); g.nz = std::max(2 * g.Ng, 2) * commSize(); if (g.n < 8) g.n = 8;
  g.frw = c.pick<double>({1, 1, 0.5, 2, 1.5}); if (c.chance(1, 6)) { g.mink = true; g.frw = 0; } g.zi = c.logreal(0.5, 5); g.nqcd = c.pick<double>({7, 0, 2, 4.5}); g.lz2e = c.pick<double>({0, 2}); g.ltype = g.lz2e ? LAMBDA_Z2 : LAMBDA_FIXED; drawExpansion(c, g); if (g.uec) { g.uec = false; }
  N = c.range(4, 10); double om = 1; double dz = 0.35 * c.real(0.5, 1) / om; double del = dz * c.real(4, 10); 
  // everything moves on time scales of a few steps: lattice frequency, masses and expansion
  dz = std::min(dz, 0.25 * g.zi / N); T = dz * N; g.L = g.n * std::max(del * dz / (0.35 * om), 4 * dz); Bg b = bg(g, g.zi + T); double w = 0.3 / dz;   /* at the end, when masses that grow are largest */ g.lambda = c.logreal(0.05, 0.5) * w * w / (b.R * b.R) * pow(b.R, g.lz2e); double want = c.logreal(0.02, 0.3) * w * w / (b.R * b.R); g.indi3 = sqrt(want / b.mA2) * g.indi3;
  if (c.chance(1, 3)) g.zth = bg(g, g.zi * 0.9).R, g.nqcdr = 0;   // saturated from the start
  b = bg(g, g.zi + T); if (!(b.mA2 > 0)) g.indi3 = 0; else g.indi3 *= sqrt(want / b.mA2); b = bg(g, g.zi);
  int q = cx ? c.pick<int>({V_QCD1, V_QCD0, V_QCD2, V_QCDC}) : c.pick<int>({V_QCD1, V_QCD0, V_QCDC, V_QCDL}); g.pot = (VqcdType)(q | V_PQ1); bool sing = q == V_QCDC && cx; 
  km = drawContent(c, b.R * (sing ? 0.1 : cx ? 0.5 : 0.4), cx ? std::polar(b.R, c.real(-1, 1)) : cd(c.real(-1, 1) * b.R, 0)); kv = drawContent(c, b.R / dz * (sing ? 0.01 : 0.03), 0); c.label(cx ? "complex" : g.type == FIELD_AXION ? "axion" : "mod"); c.label("pot" + std::to_string(q)); c.label(g.mink ? "static" : "expanding");
}
// the library, N steps over T (T may be negative), starting from (m,v) at time t
void lib(const Cfg &g0, Grid &m, Grid &v, double t, double T, int N) {
  Cfg g = g0; g.zi = t; Fld f(g); f.poisonGhosts(); scatterM(f, m); scatterV(f, v); pType = (PropType)(PROP_BASE | PROP_RKN4); initPropagator(pType, f.s, g.pot, g.Ng); for (int i = 0; i < N; i++) propagate(f.s, T / N); prop.reset(); m = gatherM(f); v = gatherV(f);
}
double dist(const Grid &a, const Grid &b, const Grid &va, const Grid &vb, double ts) { double s = 0; for (size_t i = 0; i < a.d.size(); i++) s += std::norm(a.d[i] - b.d[i]) + ts * ts * std::norm(va.d[i] - vb.d[i]); return sqrt(s / a.d.size()); }
}
static void order(Case &c, bool cx) {
  Cfg g; Content km, kv; double T; int N; draw(c, g, km, kv, T, cx, N); double od2 = pow(g.n / g.L, 2), ts = T / N; c.say("%s over %g in %d steps", g.str().c_str(), T, N); Quiet q;
  Grid m0 = fillGrid(km, g.n, g.nz, cx, g.prec), v0 = fillGrid(kv, g.n, g.nz, cx, g.prec), mr = m0, vr = v0; rk4(g, mr, vr, g.zi, T, 16 * N, od2); double e[3], sc = maxabs(m0) + ts * maxabs(v0);
  for (int k = 0; k < 3; k++) { Grid m = m0, v = v0; lib(g, m, v, g.zi, T, N << k); e[k] = dist(m, mr, v, vr, ts) / sc; }
  double fl = 1e-12 * N; c.check(e[0] < 0.02, "close", "relative error %.3g after %d steps", e[0], N);
  if (e[1] > 50 * fl) c.check(e[0] / e[1] > 8, "order", "halving the step of %d lowers the error only from %.4g to %.4g", N, e[0], e[1]);
  if (e[2] > 20 * fl) c.check(e[1] / e[2] > 10.5, "order", "halving the step twice: errors %.4g, %.4g, %.4g", e[0], e[1], e[2]); else c.check(e[2] < 40 * fl, "floor", "error %g", e[2]);
  c.nontrivial = e[1] > 50 * fl; if (getenv("PBT_M")) fprintf(stderr, "M %g %g %g ratios %g %g\n", e[0], e[1], e[2], e[0] / e[1], e[1] / e[2]);
}
LAW(C03, order_complex, 220, 4000, NP1 | NP2) { order(c, true); }
LAW(C03, order_axion, 220, 4000, NP1 | NP2) { order(c, false); }
// forwards and backwards
static void reverse(Case &c, bool cx) {
  Cfg g; Content km, kv; double T; int N; draw(c, g, km, kv, T, cx, N); double ts = T / N; c.say("%s over %g in %d steps", g.str().c_str(), T, N); Quiet q;
  Grid m0 = fillGrid(km, g.n, g.nz, cx, g.prec), v0 = fillGrid(kv, g.n, g.nz, cx, g.prec); double e[2], sc = maxabs(m0) + ts * maxabs(v0);
  for (int k = 0; k < 2; k++) { Grid m = m0, v = v0; lib(g, m, v, g.zi, T, N << k); lib(g, m, v, g.zi + T, -T, N << k); e[k] = dist(m, m0, v, v0, ts) / sc; }
  double fl = 1e-12 * N; c.check(e[0] < 0.02, "close", "relative error %.3g after %d steps forwards and backwards", e[0], N); if (e[1] > 50 * fl) c.check(e[0] / e[1] > 10.5, "order", "halving the step lowers the error of the return only from %.4g to %.4g", e[0], e[1]);
  c.nontrivial = e[0] > 50 * fl; if (getenv("PBT_M")) fprintf(stderr, "R %g %g ratio %g\n", e[0], e[1], e[0] / e[1]);
}
LAW(C03, reverse_complex, 250, 4000, NP1 | NP2) { reverse(c, true); }
LAW(C03, reverse_axion, 250, 4000, NP1 | NP2) { reverse(c, false); }
