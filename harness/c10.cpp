// C10: scaling, normalisation, core profile and angle -> complex conversion
#include "ref.h"
#include "scalar/scaleField.h"
#include "scalar/normField.h"
#include "scalar/normCore.h"
#include "scalar/theta2Cmplx.h"
using namespace ref;
static void geom(Case &c, Cfg &g) {
  int np = commSize(); g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); g.Ng = c.pick<int>({1, 2, 1, 4}); g.n = 4 * c.range(1, 6); while (g.n % np || g.n % 8) g.n += 4; g.nz = np * c.range(g.Ng, g.Ng + 5); if (g.n <= 12 && c.chance(1, 8)) g.nz = np * (g.n + c.range(1, 9));
  g.zi = c.logreal(0.3, 5); g.frw = c.pick<double>({1, 1, 0.5, 2}); if (c.chance(1, 8)) { g.mink = true; g.frw = 0; } drawExpansion(c, g);
}
// every byte of the three arrays, so that a stray write shows
struct Snap { std::vector<double> m, v, m2; };
static std::vector<double> snap(const Fld &f, const void *p, size_t reals) { std::vector<double> o(reals); for (size_t i = 0; i < reals; i++) o[i] = f.real(p, i); return o; }
LAW(C10, scale, 2600, 40000, NP1 | NP2) {
  Cfg g; geom(c, g); g.type = c.pick<FieldType>({FIELD_SAXION, FIELD_AXION, FIELD_AXION_MOD, FIELD_PAXION}); g.lowmem = g.type == FIELD_SAXION && c.chance(1, 4); double fac = c.pick<double>({2, 0.37, -1, 1, 1e5, 0, 1e-7}); FieldIndex fi = c.pick<FieldIndex>({FIELD_M, FIELD_V, FIELD_M2}); if (fi == FIELD_M2 && g.lowmem) fi = FIELD_M; uint64_t sd = c.seed();
  c.say("%s index=%d factor=%g", g.str().c_str(), (int)fi, fac); Fld f(g); Scalar *s = f.s; int nd = g.type == FIELD_SAXION ? 2 : 1; size_t N = s->Size() * nd;
  void *b[3] = {s->mStart(), s->vStart(), s->m2Cpu() ? s->m2Start() : nullptr}; const char *nm[3] = {"m", "v", "m2"}; std::vector<double> o[3];
  // the whole v allocation is watched, beyond its end as far as the allocator allows reading
  for (int k = 0; k < 3; k++) if (b[k]) { for (size_t i = 0; i < N; i++) f.putReal(b[k], i, 3 * hreal(mix(sd + k * 7777777 + i))); o[k] = snap(f, b[k], N); }
  { Quiet q; scaleField(s, fi, fac); } int sel = fi == FIELD_M ? 0 : fi == FIELD_V ? 1 : 2; double ff = g.dp() ? fac : (double)(float)fac;
  for (int k = 0; k < 3; k++) if (b[k]) for (size_t i = 0; i < N; i++) { double w = k == sel ? o[k][i] * ff : o[k][i], got = f.real(b[k], i); if (!(fabs(got - w) <= (k == sel ? 2 * g.eps() * fabs(w) + 1e-44 : 0))) { c.fail(k == sel ? "scaled" : std::string("other-") + nm[k], "component %zu of %s is %.9g, expected %.9g after scaling %s by %g", i, nm[k], got, w, nm[sel], fac); break; } }
  c.nontrivial = fac != 1; c.label(std::string(nm[sel]) + " type" + std::to_string(g.type));
}
LAW(C10, normalise, 1300, 20000, NP1 | NP2) {
  Cfg g; geom(c, g); g.lowmem = c.chance(1, 4); FieldIndex fi = c.pick<FieldIndex>({FIELD_M, FIELD_V}); bool fold = c.flip(); Content km = drawContent(c, c.logreal(1e-3, 1e3), cd(c.real(-1, 1), c.real(-1, 1))), kv = drawContent(c, c.logreal(1e-3, 1e3), 0);
  c.say("%s index=%d folded=%d", g.str().c_str(), (int)fi, fold); Fld f(g); if (fold) f.fold(); Grid m = fillGrid(km, g.n, g.nz, true, g.prec), v = fillGrid(kv, g.n, g.nz, true, g.prec); for (auto &x : m.d) if (std::abs(x) < 1e-12) x = 1; for (auto &x : v.d) if (std::abs(x) < 1e-12) x = 1; scatterM(f, m); scatterV(f, v); { Quiet q; normaliseField(f.s, fi); }
  Grid gm = gatherM(f), gv = gatherV(f); 
  for (size_t i = 0; i < m.d.size(); i++) { cd wm = fi == FIELD_M ? m.d[i] / std::abs(m.d[i]) : m.d[i], wv = fi == FIELD_V ? v.d[i] / std::abs(v.d[i]) : v.d[i]; double t = 6 * g.eps();
    if (!(std::abs(gm.d[i] - wm) <= (fi == FIELD_M ? t : 0))) { c.fail("m", "site %zu of m is (%.9g,%.9g), expected (%.9g,%.9g)", i, gm.d[i].real(), gm.d[i].imag(), wm.real(), wm.imag()); break; }
    if (!(std::abs(gv.d[i] - wv) <= (fi == FIELD_V ? t : 0))) { c.fail("v", "site %zu of v is (%.9g,%.9g), expected (%.9g,%.9g)", i, gv.d[i].real(), gv.d[i].imag(), wv.real(), wv.imag()); break; } }
  c.nontrivial = km.kind != 0 && kv.kind != 0; c.label(fi == FIELD_M ? "m" : "v");
}
// modulus from the string-core profile, phase untouched
LAW(C10, core_profile, 600, 10000, NP1 | NP2 | NP3) {
  Cfg g; geom(c, g); g.lowmem = c.chance(1, 4); g.L = c.logreal(1, 20); g.lambda = c.logreal(0.1, 1e4); g.lz2e = c.pick<double>({0, 2}); g.ltype = g.lz2e ? LAMBDA_Z2 : LAMBDA_FIXED; double R = bg(g, g.zi).R; bool unit = c.flip(); uint64_t sd = c.seed(); Content k = drawContent(c, 1, cd(c.real(-1, 1), 0.3)); 
  c.say("%s unit=%d", g.str().c_str(), unit); int n = g.n; Fld f(g); f.poisonGhosts(); Grid m = fillGrid(k, n, g.nz, true, FIELD_DOUBLE), v = m; for (size_t i = 0; i < m.d.size(); i++) { cd &x = m.d[i]; if (std::abs(x) < 1e-2) x = cd(0.1, 0.1); if (unit) x /= std::abs(x); x = rndp(x, g.prec); v.d[i] = rndp(cd(hreal(sd + i), hreal(sd - i)), g.prec); } scatterM(f, m); scatterV(f, v); { Quiet q; normCoreField(f.s); }
  Grid gm = gatherM(f), gv = gatherV(f); double lam = bg(g, g.zi).lam, del = g.L / n, eps = g.eps();
  for (int z = 0; z < g.nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) { cd e = m.at(x, y, z), ph = e / std::abs(e), got = gm.at(x, y, z); double G = 0, mx = 0; const int D[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
    for (int d = 0; d < 3; d++) for (int s = -1; s <= 1; s += 2) { cd q = (m.at(x + s * D[d][0], y + s * D[d][1], z + s * D[d][2]) - e) / e; G += q.imag() * q.imag(); mx = std::max(mx, std::abs(q) + 1); }
    double s = 2 * sqrt(lam) * R * del / sqrt(G), s2 = s * s, s4 = s2 * s2, rho = (0.43 * s + 0.164 * s2 + 0.036 * s4) / (1 + 0.39 * s + 0.2 * s2 + 0.036 * s4); double dG = 20 * eps * mx * sqrt(G) * 2 + 100 * eps * eps * mx * mx; bool edge = fabs(G - 1e-7) <= dG + 1e-9; if (G <= 1e-7) rho = 1;
    double tol = 20 * eps + (G > 1e-7 ? std::min(1., 2 * dG / G) : 0) + (edge ? 2 : 0);
    if (!(std::abs(got - rho * ph) <= tol)) { c.fail(std::abs(got / std::abs(got) - ph) > 20 * eps ? "phase" : "profile", "site (%d,%d,%d) is (%.9g,%.9g), expected modulus %.9g and phase of (%.9g,%.9g); tolerance %.3g", x, y, z, got.real(), got.imag(), rho, e.real(), e.imag(), tol); goto out; }
    if (!g.lowmem && gv.at(x, y, z) != v.at(x, y, z)) { c.fail("v", "the velocity changed at (%d,%d,%d)", x, y, z); goto out; } }
out: c.nontrivial = k.kind != 0; c.label(unit ? "unit modulus" : "any modulus");
}
// phi = R exp(i theta), phi' = (R'/R + i theta') phi
LAW(C10, angle_to_complex, 1300, 20000, NP1 | NP2) {
  Cfg g; geom(c, g); Bg b = bg(g, g.zi); double R = b.R; Content km = drawContent(c, c.pick<double>({0.1, 3, 30}), cd(c.real(-4, 4), 5)), kv = drawContent(c, c.logreal(0.01, 100), 1); c.say("%s", g.str().c_str());
  Fld f(g); Grid m = fillGrid(km, g.n, g.nz, true, g.prec), v = fillGrid(kv, g.n, g.nz, true, g.prec); scatterM(f, m); scatterV(f, v); { Quiet q; theta2Cmplx(f.s); } Grid gm = gatherM(f), gv = gatherV(f);
  for (size_t i = 0; i < m.d.size(); i++) { double th = m.d[i].real(), w = v.d[i].real(), t = 8 * g.eps() * (1 + fabs(th)); cd wm = std::polar(R, th), wv = wm * cd(b.Rp, w);
    if (!(std::abs(gm.d[i] - wm) <= t * R)) { c.fail("field", "site %zu: (%.9g,%.9g), expected (%.9g,%.9g)", i, gm.d[i].real(), gm.d[i].imag(), wm.real(), wm.imag()); break; }
    if (!(std::abs(gv.d[i] - wv) <= t * R * (1 + b.Rp + fabs(w)))) { c.fail("velocity", "site %zu: velocity (%.9g,%.9g), expected (%.9g,%.9g)", i, gv.d[i].real(), gv.d[i].imag(), wv.real(), wv.imag()); break; } }
  c.nontrivial = km.kind != 0; c.label(g.mink ? "static" : g.frw == 1 ? "radiation" : "other expansion");
}
