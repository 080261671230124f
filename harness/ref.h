// Reference background and lattice dynamics in double precision, written from the equations.
#pragma once
#include "jax.h"
namespace ref {
// background of the configuration at conformal time t (analytic expansion laws)
struct Bg { double t, R, Rp, Rpp, mA2, lam; };
inline Bg bg(const Cfg &g, double t) {
  Bg b; b.t = t; double f = g.mink ? 0 : g.frw; b.R = pow(t, f); b.Rp = f / t; b.Rpp = f * (f - 1) / (t * t);
  if (g.grav > 0 && f == 1) { double q = g.grav * t / 4; b.R = t * (1 + q); b.Rp = (1 + 2 * q) / (t * (1 + q)); b.Rpp = g.grav / (2 * t * (1 + q)); }
  if (g.uec) { Cosmos &k = tabulated(g.fA); b.R = k.R(t); b.Rp = k.Rp(t); b.Rpp = k.Rpp(t); b.mA2 = k.AxionMass2(t); b.lam = g.lambda / pow(b.R, g.lz2e); return b; }
  double m0 = g.indi3 * g.indi3;
  if (b.R < g.zth) b.mA2 = m0 * pow(b.R, g.nqcd);
  else { b.mA2 = m0 * pow(g.zth, g.nqcd); if (g.zrs >= g.zth && b.R > g.zrs) b.mA2 *= pow(b.R / g.zrs, g.nqcdr); }
  b.lam = g.ltype == LAMBDA_Z2 ? g.lambda / pow(b.R, g.lz2e) : g.lambda / pow(b.R, g.lz2e); return b;
}
inline const double *co(int Ng) {
  static const double c[6][5] = {{0}, {1.}, {4. / 3, -1. / 12}, {1.5, -3. / 20, 1. / 90}, {1.6, -0.2, 8. / 315, -1. / 560}, {5. / 3, -5. / 21, 5. / 126, -5. / 1008, 1. / 3150}}; return c[Ng]; }
static const double rkC[4] = {+0.1344961992774310892, -0.2248198030794208058, +0.7563200005156682911, +0.3340036032863214255};
static const double rkD[4] = {+0.5153528374311229364, -0.085782019412973646, +0.4415830236164665242, +0.1288461583653841854};
inline double wrap(double x, double P) { double a = x, b = x + P, c = x - P; double r = a; if (fabs(b) < fabs(r)) r = b; if (fabs(c) < fabs(r)) r = c; return r; }

// complex-field acceleration, potential and constraint variants
struct Sax { Cfg g; double od2; };
inline cd lapl(const Grid &m, int x, int y, int z, int Ng, double od2) {
  const double *C = co(Ng); cd s = 0, e = m.at(x, y, z);
  for (int k = 1; k <= Ng; k++) s += C[k - 1] * (m.at(x + k, y, z) + m.at(x - k, y, z) + m.at(x, y + k, z) + m.at(x, y - k, z) + m.at(x, y, z + k) + m.at(x, y, z - k) - 6. * e);
  return s * od2;
}
struct Stage { cd v, m; double scale; };
// one kick-drift stage of the complex field at a site
inline Stage saxStage(const Cfg &g, const Bg &b, cd lap, cd m, cd v, double kc, double kd) {
  double R2 = b.R * b.R, a2 = std::norm(m); cd acc = lap; int pot = g.pot;
  if (!(pot & V_EVOL_THETA)) {
    cd pq = 0; 
    switch (pot & V_PQ) { case V_PQ1: pq = b.lam * (a2 - R2) * m; break; case V_PQ2: pq = 2 * b.lam / (R2 * R2) * (a2 * a2 - R2 * R2) * a2 * m; break; default: break; }
    acc += -pq + b.Rpp * m; }
  double sc = std::abs(lap) + b.lam * (a2 + R2) * std::abs(m);
  if (!(pot & V_EVOL_RHO)) switch (pot & V_QCD) {
    case V_QCD1: acc += b.mA2 * R2 * b.R; break;
    case V_QCD2: acc += 0.5 * b.mA2 * R2 * std::conj(m); break;
    case V_QCDC: case V_QCDL: { double th = std::arg(m); acc += -b.mA2 * R2 * R2 * sin(th) / std::abs(m) * cd(-sin(th), cos(th)); break; }
    default: break; }
  sc += b.mA2 * R2 * (b.R + R2 / std::abs(m));
  if (pot & V_EVOL_THETA) {                 // keep only the angular parts; the modulus follows the scale factor
    cd th = cd(0, 1) * m; auto proj = [&](cd a) { return th * ((a * std::conj(th)).real() / a2); };
    acc = proj(acc) + b.Rpp * m; v = proj(v) + b.Rp * m; }
  double G = g.gamma / b.R; if (g.dectime > 0) G *= R2 / g.dectime; double mo = G * kc / 2, eps = mo / (1 + mo);
  cd vn;
  switch (pot & V_DAMP) {
    case V_DAMP_ALL: vn = (v * (1 - mo) + acc * kc) / (1 + mo); break;
    case V_DAMP_RHO: { double mv = (v * std::conj(m)).real(), ma = (acc * std::conj(m)).real(); vn = v + acc * kc - eps * m / a2 * (2 * (mv - a2 * b.Rp) + ma * kc); break; }
    default: vn = v + acc * kc; }
  if (pot & V_EVOL_RHO) vn = m * ((vn * std::conj(m)).real() / a2);
  Stage s; s.v = vn; s.m = m + kd * vn; s.scale = sc; return s;
}
// whole step; returns the largest acceleration scale met
inline double saxStep(const Cfg &g, Grid &m, Grid &v, double &t, double dz, double od2) {
  double sc = 0; Grid m2 = m; int n = m.n, nz = m.nz;
  for (int s = 0; s < 4; s++) { Bg b = bg(g, t);
    for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) {
      Stage r = saxStage(g, b, lapl(m, x, y, z, g.Ng, od2), m.at(x, y, z), v.at(x, y, z), dz * rkC[s], dz * rkD[s]); v.at(x, y, z) = r.v; m2.at(x, y, z) = r.m; if (r.scale > sc) sc = r.scale; }
    std::swap(m.d, m2.d); t += dz * rkD[s]; }
  return sc;
}
// axion angle (psi = R theta). mod: differences and values wrapped with period 2 pi R.
inline double axStep(const Cfg &g, Grid &m, Grid &v, double &t, double dz, double od2, double *tie = nullptr) {
  bool mod = g.type == FIELD_AXION_MOD; double sc = 0; Grid m2 = m; int n = m.n, nz = m.nz; const double *C = co(g.Ng);
  for (int s = 0; s < 4; s++) { Bg b = bg(g, t); double P = 2 * M_PI * b.R, kc = dz * rkC[s], kd = dz * rkD[s];
    for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) {
      double e = m.at(x, y, z).real(), lap = 0, mag = 0; auto df = [&](int X, int Y, int Z) { double d = m.at(X, Y, Z).real() - e; mag += fabs(d); if (mod && tie) *tie = std::min(*tie, std::min(fabs(fabs(d) - P / 2), fabs(fabs(d) - 1.5 * P))); return mod ? wrap(d, P) : d; };
      for (int k = 1; k <= g.Ng; k++) lap += C[k - 1] * (df(x + k, y, z) + df(x - k, y, z) + df(x, y + k, z) + df(x, y - k, z) + df(x, y, z + k) + df(x, y, z - k));
      lap *= od2; double th = e / b.R, f = 0; 
      switch (g.pot & V_QCD) { case V_QCD1: case V_QCDV: case V_QCDC: f = sin(th); break; case V_QCDL: f = th; break; default: f = 0; }
      double acc = lap - b.mA2 * b.R * b.R * b.R * f + b.Rpp * e; double vn = v.at(x, y, z).real() + kc * acc; double mn = e + kd * vn; if (mod) { if (tie) *tie = std::min(*tie, fabs(fabs(mn) - P / 2)); mn = wrap(mn, P); }
      v.at(x, y, z) = vn; m2.at(x, y, z) = mn; double q = (mag + 6 * fabs(e)) * od2 + b.mA2 * b.R * b.R * b.R * (fabs(f) + 1e-3) + fabs(b.Rpp * e); if (q > sc) sc = q; }
    std::swap(m.d, m2.d); t += dz * rkD[s]; }
  return sc;
}
inline double maxabs(const Grid &g) { double a = 0; for (auto &x : g.d) a = std::max(a, std::abs(x)); return a; }
// random lattice + background for a propagation case
}
