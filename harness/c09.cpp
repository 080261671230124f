// C09: complex field -> axion angle, and mending of branch jumps
#include "ref.h"
#include "scalar/thetaScalar.h"
#include "scalar/mendTheta.h"
#include "propagator/allProp.h"
using namespace ref;
// a single valued (string free) angle whose neighbouring sites differ by less than `dmax`
static std::vector<double> smoothAngle(Case &c, int n, int nz, double dmax) {
  int nw = c.range(1, 4); double off = c.real(-4, 4); std::vector<double> th((size_t)n * n * nz, off); double noise = c.flip() ? c.real(0, 0.4) : 0; uint64_t sd = c.seed();
  std::vector<std::array<double, 5>> w; double slope = 0; for (int i = 0; i < nw; i++) { std::array<double, 5> a{(double)c.range(-2, 2), (double)c.range(-2, 2), (double)c.range(-2, 2), c.real(0.2, 1), c.real(0, 2 * M_PI)}; w.push_back(a); slope += a[3] * 2 * M_PI * std::max({fabs(a[0]) / n, fabs(a[1]) / n, fabs(a[2]) / nz}); }
  double A = slope > 0 ? std::min((dmax - noise) / slope, c.real(0.5, 12)) : 0;
  for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) { double s = 0; for (auto &a : w) s += a[3] * sin(2 * M_PI * (a[0] * x / n + a[1] * y / n + a[2] * z / nz) + a[4]); th[((size_t)z * n + y) * n + x] += A * s + 0.5 * noise * hreal(sd ^ mix(((uint64_t)z << 40) ^ ((uint64_t)y << 20) ^ x)); }
  return th;
}
static void geom(Case &c, Cfg &g, bool axion) {
  int np = commSize(); g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); int lanes = (g.dp() ? 4 : 8); g.Ng = c.pick<int>({1, 2, 1, 3}); 
  g.n = lanes * c.range(g.dp() ? 1 : 1, 24 / lanes); if (g.n < 8) g.n = 8; while (g.n % np) g.n += lanes; g.nz = np * c.range(g.Ng, g.Ng + 8); if (g.n <= 12 && c.chance(1, 8)) g.nz = np * (g.n + c.range(1, 9)); (void)axion;
  g.zi = c.logreal(0.3, 5); g.frw = c.pick<double>({1, 1, 0.5, 2, 1.5}); if (c.chance(1, 8)) { g.mink = true; g.frw = 0; } drawExpansion(c, g);
}
static void convert(Case &c, bool mod, bool stringy, bool lowmem = false) {
  Cfg g; geom(c, g, false); g.lowmem = lowmem; double R = bg(g, g.zi).R, Rp = bg(g, g.zi).Rp * R, P = 2 * M_PI * R, sh = c.flip() ? 0 : R * c.real(-0.3, 0.3); bool fold = c.flip();
  int n = g.n, nz = g.nz; uint64_t sd = c.seed(); std::vector<double> th; if (!stringy) th = smoothAngle(c, n, nz, 2.9); 
  c.say("%s shift=%g mod=%d strings=%d folded=%d", g.str().c_str(), sh, mod, stringy, fold);
  Grid m(n, nz), v(n, nz); std::vector<double> want(m.d.size()), wantv(m.d.size()), tol(m.d.size()), tolv(m.d.size()); double eps = g.eps();
  for (size_t i = 0; i < m.d.size(); i++) { uint64_t h = mix(sd + 31 * i); double a = stringy ? M_PI * hreal(h + 9) : th[i]; cd mm = std::polar(R * (1 + 0.6 * hreal(h)), a) + sh, vv = R * 3. * cd(hreal(h + 1), hreal(h + 2)); m.d[i] = rndp(mm, g.prec); v.d[i] = rndp(vv, g.prec);
    cd q = m.d[i] - g.dp() * sh - (!g.dp()) * (double)(float)sh; double ar = std::arg(q); want[i] = R * ar; wantv[i] = R * (v.d[i] * std::conj(q)).imag() / std::norm(q); double rel = 1 + std::abs(m.d[i]) / std::abs(q); tol[i] = 8 * eps * R * (4 + rel); tolv[i] = 12 * eps * (R * std::abs(v.d[i]) / std::abs(q) * rel + fabs(Rp) * (4 + rel)); }
  Fld f(g); if (fold) f.fold(); f.poisonGhosts(); scatterM(f, m); scatterV(f, v); double z0 = *f.s->zV();
  { Quiet q; cmplxToTheta(f.s, sh, mod); }
  Scalar *s = f.s; c.check(s->Field() == (mod ? FIELD_AXION_MOD : FIELD_AXION), "type", "field type %d after the conversion", (int)s->Field()); c.check(s->DataSize() == (size_t)s->Precision() && s->DataAlign() / s->DataSize() == 32 / s->DataSize(), "size", "site size %zu", s->DataSize()); c.check(!s->LowMem(), "lowmem", "lowmem still set"); c.check(*s->zV() == z0, "time", "time changed");
  if (!c.fails.empty()) return; c.check(s->m2Cpu() != nullptr, "no-m2", "a field converted to the axion has no auxiliary field");
  Grid gm = gatherM(f), gv = gatherV(f); bool have = false; long k0 = 0; int wraps = 0;
  for (size_t i = 0; i < gm.d.size(); i++) { int x = i % n, y = i / n % n, z = i / n / n; double a = gm.d[i].real(), b = gv.d[i].real(), k = round((a - want[i]) / P); double big = 1 + fabs(k);
    if (!(fabs(a - want[i] - k * P) <= tol[i] * big)) { c.fail("angle", "site (%d,%d,%d): angle*R %.9g is not %.9g modulo %.9g (excess %.3g, tolerance %.3g)", x, y, z, a, want[i], P, a - want[i] - k * P, tol[i] * big); break; }
    if (mod && !(fabs(a) <= P / 2 * (1 + 4 * eps))) { c.fail("principal", "site (%d,%d,%d): %.9g outside the principal interval of half width %.9g", x, y, z, a, P / 2); break; }
    double wv = wantv[i] + Rp / R * a; if (!(fabs(b - wv) <= tolv[i] * big)) { c.fail("velocity", "site (%d,%d,%d): velocity %.9g, expected %.9g (angle shifted by %g periods; tolerance %.3g)", x, y, z, b, wv, k, tolv[i] * big); break; }
    if (k) wraps++;
    if (!mod && !stringy) { long kk = lround((a / R - th[i]) / (2 * M_PI)); if (!have) { k0 = kk; have = true; } else if (kk != k0) { c.fail("mended", "site (%d,%d,%d): the mended angle is %ld period(s) away from the continuous one (%.6g vs %.6g)", x, y, z, kk - k0, a / R, th[i]); break; } } }
  c.nontrivial = mod ? true : wraps > 0 && wraps < (int)m.d.size(); c.label(mod ? "mod" : stringy ? "strings" : wraps ? "mended" : "no jump"); if (g.lowmem) c.label("lowmem"); if (g.frw != 1) c.label("not radiation");
}
LAW(C09, to_angle, 900, 14000, NP1 | NP2 | NP3) { convert(c, c.flip(), true); }
// a lowmem field (principal values only: mending needs the auxiliary field)
LAW(C09, lowmem_to_angle, 100, 1000, NP1 | NP2) { convert(c, true, true, true); }
LAW(C09, to_mended_angle, 1100, 16000, NP1 | NP2 | NP3) { convert(c, false, false); }
// mending of an axion field from which periods were removed or added
LAW(C09, mend, 1100, 16000, NP1 | NP2 | NP3) {
  Cfg g; geom(c, g, true); g.type = FIELD_AXION; double R = bg(g, g.zi).R, Rp = bg(g, g.zi).Rp * R, P = 2 * M_PI * R, eps = g.eps(); int n = g.n, nz = g.nz; auto th = smoothAngle(c, n, nz, 2.9); uint64_t sd = c.seed(); int how = c.range(0, 3); bool fold = c.flip();
  c.say("%s periods=%d folded=%d", g.str().c_str(), how, fold); Grid m(n, nz), v(n, nz); std::vector<double> k(m.d.size()), w(m.d.size()); bool any = false;
  for (size_t i = 0; i < m.d.size(); i++) { uint64_t h = mix(sd + 7 * i); int x = i % n, y = i / n % n, z = i / n / n; switch (how) { case 0: k[i] = round(th[i] / (2 * M_PI)); break; case 1: k[i] = (double)(h % 5) - 2; break; case 2: k[i] = (x > n / 3) + (y > n / 2) - 2 * (z > nz / 2); break; default: k[i] = 0; }
    w[i] = R * 4 * hreal(h + 1); m.d[i] = rndp(R * th[i] - k[i] * P, g.prec); v.d[i] = rndp(w[i] + Rp * (th[i] - 2 * M_PI * k[i]), g.prec); if (k[i] != k[0]) any = true; }
  Fld f(g); if (fold) f.fold(); f.poisonGhosts(); scatterM(f, m); scatterV(f, v); size_t nj; { Quiet q; nj = mendTheta(f.s); } Grid gm = gatherM(f), gv = gatherV(f); long k0 = 0; int ch = 0;
  for (size_t i = 0; i < gm.d.size(); i++) { int x = i % n, y = i / n % n, z = i / n / n; double a = gm.d[i].real(); if (a != m.d[i].real()) ch++; long kk = lround((a / R - th[i]) / (2 * M_PI)); if (!i) k0 = kk; double big = 3 + fabs(th[i]) + 7 * (3 + labs(k0)); 
    if (kk != k0) { c.fail("mended", "site (%d,%d,%d): the mended angle is %ld period(s) away from the continuous one", x, y, z, kk - k0); break; }
    if (!(fabs(a - R * th[i] - k0 * P) <= 4 * eps * R * big)) { c.fail("angle", "site (%d,%d,%d): the mended value differs from the old one by a fraction of a period: %.9g vs %.9g", x, y, z, a, R * th[i] + k0 * P); break; }
    double wv = w[i] + Rp * (th[i] + 2 * M_PI * k0); if (!(fabs(gv.d[i].real() - wv) <= 6 * eps * (R * 4 + fabs(Rp) * big))) { c.fail("velocity", "site (%d,%d,%d): velocity %.9g, expected %.9g (value shifted by %g periods)", x, y, z, gv.d[i].real(), wv, k0 + k[i]); break; } }
  c.check((nj == 0) == (ch == 0), "count", "%zu jumps reported, %d sites changed", nj, ch);
  size_t n2; { Quiet q; n2 = mendTheta(f.s); } Grid g2 = gatherM(f), v2 = gatherV(f); c.check(n2 == 0, "again", "a second mending reports %zu jumps", n2); for (size_t i = 0; i < g2.d.size(); i++) if (g2.d[i] != gm.d[i] || v2.d[i] != gv.d[i]) { c.fail("again", "a second mending changed site %zu", i); break; }
  c.nontrivial = any; c.label("periods" + std::to_string(how)); if (g.frw != 1) c.label("not radiation");
}
