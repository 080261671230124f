// C28: initial conditions: point-based, mode-based and smoothed generators
#include "resample.h"
#include "gen/genConf.h"
#include "gen/randXeon.h"
#include "gen/smoothXeon.h"
#undef _MOM_CONF_
#include "gen/momConf.h"
#include "fft/fftCode.h"
#include <mpi.h>
using namespace ref;
namespace {
// the background of a generated field: any expansion law but no restriction from the potential
void geom(Case &c, Cfg &g, bool cubic, int maxn) {
  int np = commSize(); g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); g.Ng = c.pick<int>({1, 2, 1, 3}); auto ok = [&](int n) { return n % np == 0 && (n * n * g.prec) % 32 == 0 && n / np >= g.Ng; };
  g.n = 4 * c.range(1, maxn / 4); while (!ok(g.n)) g.n += 2; g.nz = g.n;
  if (!cubic && c.flip()) { g.nz = np * c.range(g.Ng, std::max(g.Ng, 24 / np)); if (g.nz % 2) g.nz = (g.nz / np % 2) ? g.nz + np : g.nz; if (g.nz % 2) g.nz = g.n; }
  g.L = c.logreal(0.5, 40); g.zi = c.logreal(0.3, 4); g.lambda = c.logreal(1, 100); if (c.chance(1, 8)) { g.mink = true; g.frw = 0; } else g.frw = c.pick<double>({1, 1, 0.5, 2, 1.5}); drawExpansion(c, g); }
IcData ics(const Cfg &g) { IcData ic; memset((void *)&ic, 0, sizeof ic); ic.zi = g.zi; ic.Nghost = g.Ng; ic.fType = g.type; ic.grav = g.grav; ic.alpha = 0.143; ic.kMax = 2; ic.kcr = 1; ic.prepcoe = 3; ic.beta = 1; ic.mocoty = MOM_MEXP2; ic.smvarType = CONF_RAND; ic.randommom = true; ic.fieldindex = FIELD_NO; ic.axtinfo.nMax = -1; return ic; }
struct Gen { Grid m, v; bool bad = false; };
// runs the generator on a fresh field
Gen generate(Fld &f, IcData ic, double md0 = 10) { f.cosmos.SetICData(ic); f.poisonGhosts(); mode0 = md0; kCrit = ic.kcr; sizeN = f.n(); zInit = ic.zi; { Quiet q; genConf(&f.cosmos, f.s); } Gen r; r.m = gatherM(f); r.v = gatherV(f); for (auto &x : r.m.d) if (!std::isfinite(std::abs(x))) r.bad = true; for (auto &x : r.v.d) if (!std::isfinite(std::abs(x))) r.bad = true; return r; }
void ghosts(Case &c, Fld &f, const Grid &m) {
  size_t S = f.s->Surf(); int Ng = f.s->getNg(), n = f.n(); for (int k = 0; k < Ng; k++) for (int s = 0; s < 2; s++) for (int y = 0; y < n; y += 3) for (int x = 0; x < n; x++) { int z = s ? f.z0() + f.lz() + k : f.z0() - Ng + k; cd a = f.get(s ? f.s->mBackGhost() : f.s->mFrontGhost(), (size_t)k * S + (size_t)y * n + x); if (!(a == m.at(x, y, z))) { c.fail("ghosts", "the generated field has a wrong ghost slice %d (side %d)", k, s); return; } } }
const char *nm(ConfsubType t) { switch (t) { case CONF_RAND: return "random"; case CONF_STRINGXY: return "stXY"; case CONF_STRINGYZ: return "stYZ"; case CONF_MINICLUSTER0: return "mc0"; case CONF_MINICLUSTER: return "mc"; case CONF_AXNOISE: return "axnoise"; case CONF_SAXNOISE: return "saxnoise"; case CONF_AX1MODE: return "ax1mode"; case CONF_PARRES: return "parres"; case CONF_AXITON: return "axiton"; default: return "?"; } }
// angle of the circular loop of radius a; r distance from its axis, h height over its plane
double loopAngle(double a, double r, double h) { double p = (r + a) * (r + a) + h * h, q = (r - a) * (r - a) + h * h, s = sqrt(p * q); return s > 0 ? M_PI * (0.5 + (4 * a * a - p - q) / (4 * s)) : 0; }
// modulus R, and velocity (R'/R)(1+kick) times the field unless vs is given
void modulus(Case &c, const Grid &m, double R, double tol, const char *what) { double w = 0; for (auto &x : m.d) w = std::max(w, fabs(std::abs(x) / R - 1)); c.near(w, 0, tol, "modulus", "%s: modulus of the field over the scale factor off by", what); }
void velocity(Case &c, const Gen &q, double ratio, double tol, const char *what) { double w = 0, s = 0; for (size_t i = 0; i < q.m.d.size(); i++) { w = std::max(w, std::abs(q.v.d[i] - ratio * q.m.d[i])); s = std::max(s, std::abs(q.m.d[i])); } c.near(w, 0, tol * (fabs(ratio) + 1e-3) * s, "velocity", "%s: velocity differs from %.6g times the field by", what, ratio); }
}
// every point-based configuration at every site
LAW(C28, points, 500, 9000, NP1 | NP2 | NP3 | NP4) {
  Cfg g; geom(c, g, false, 24); IcData ic = ics(g); ic.cType = CONF_SMOOTH; ConfsubType t = c.pick<ConfsubType>({CONF_RAND, CONF_STRINGXY, CONF_STRINGYZ, CONF_MINICLUSTER0, CONF_MINICLUSTER, CONF_AXNOISE, CONF_SAXNOISE, CONF_AX1MODE, CONF_PARRES, CONF_AXITON}); ic.smvarType = t;
  ic.mode0 = c.real(0.1, 3); ic.kcr = c.logreal(0.1, 3); ic.kMax = c.range(1, 4); ic.kickalpha = c.chance(1, 3) ? c.real(-0.9, 2) : 0; int n = g.n, nz = g.nz; bool loop = t == CONF_STRINGXY || t == CONF_STRINGYZ; double kx = ic.kMax, ky = 0, kz = 0; bool file = false;
  if (loop) { ic.mode0 = c.chance(1, 4) ? 0 : c.chance(1, 3) ? c.pick<double>({0.25, 0.125}) : c.real(0.1, 0.45); ic.kcr = c.chance(1, 2) ? c.range(0, nz - 1) : c.real(0, nz - 1); } if (t == CONF_AXNOISE) ic.kcr = c.logreal(0.01, 3); if (t == CONF_SAXNOISE) ic.kcr = c.real(0.01, 0.9); if (t == CONF_MINICLUSTER || t == CONF_MINICLUSTER0 || t == CONF_AXITON) ic.kcr = g.L * c.logreal(0.03, 1);
  if (t == CONF_PARRES && c.flip()) { file = true; kx = c.range(-3, 3); ky = c.range(-3, 3); kz = c.range(-3, 3); }
  c.say("%s %s mode0=%.6g kcr=%.6g kmax=%zu kick=%.4g k=(%g,%g,%g)%s", g.str().c_str(), nm(t), ic.mode0, ic.kcr, ic.kMax, ic.kickalpha, kx, ky, kz, file ? " from kkk.dat" : ""); c.label(nm(t));
  if (file) { if (commRank() == 0) { FILE *o = fopen("kkk.dat", "w"); fprintf(o, "%g %g %g\n", kx, ky, kz); fclose(o); } commSync(); }
  Fld f(g); Gen q = generate(f, ic); commSync(); if (file && commRank() == 0) remove("kkk.dat"); if (q.bad) { c.fail("finite", "%s: the generated field is not finite", nm(t)); return; } ghosts(c, f, q.m);
  Bg b = bg(g, g.zi); double R = g.mink ? 1 : b.R, e = g.eps(), rr = R, A = ic.mode0, lo = 1e300, hi = -1e300, sx = 0, sy = 0; if (t == CONF_PARRES) rr = R * ic.kcr; if (t != CONF_SAXNOISE) modulus(c, q.m, rr, 8 * e, nm(t));
  if (g.mink) velocity(c, q, 0, 8 * e, nm(t)); else velocity(c, q, b.Rp * (1 + ic.kickalpha), 16 * e, nm(t));
  double aL = n * (A > 0 ? A : 0.2501), ir2 = g.L * g.L / (2. * n * n * ic.kcr * ic.kcr); size_t N = q.m.d.size(); double worst = 0; int wx = 0, wy = 0, wz = 0;
  for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) {
    cd p = q.m.at(x, y, z) / R; double th = 0, tol = 0, X = x > n / 2 ? x - n : x, Y = y > n / 2 ? y - n : y, Z = z > nz / 2 ? z - nz : z, cx = x - n / 2, cy = y - n / 2; bool cmp = true;
    switch (t) {
      case CONF_AX1MODE: th = A * cos(2 * M_PI * ((double)ic.kMax * x + y) / n); tol = A * (40 * e + 1e-7) * (ic.kMax + 1); break;
      case CONF_PARRES: { double ph = 2 * M_PI * (x * kx + y * ky + z * kz) / n; th = A * cos(ph); tol = A * (8 * e + 1e-8) * (fabs(x * kx) + fabs(y * ky) + fabs(z * kz) + n) * 8 / n; break; }
      case CONF_MINICLUSTER: th = A * exp(-(cx * cx + cy * cy + Z * Z) * ir2); tol = A * 16 * e * (1 + (cx * cx + cy * cy + Z * Z) * ir2); break;
      case CONF_MINICLUSTER0: th = A * exp(-(X * X + Y * Y + Z * Z) * ir2); tol = A * 16 * e * (1 + (X * X + Y * Y + Z * Z) * ir2); break;
      case CONF_AXITON: th = A / (1 + (X * X + Y * Y + Z * Z) * ir2); tol = A * 16 * e; break;
      case CONF_STRINGXY: { double h = z - ic.kcr; if (h > nz / 2.) h -= nz; if (-h > nz / 2.) h += nz; double r = sqrt(cx * cx + cy * cy); th = loopAngle(aL, r, h) * (h - 0.01 > 0 ? 1 : -1); double d2 = (r - aL) * (r - aL) + h * h; tol = 1e-6 + (g.dp() ? 1e-10 : 1e-4) * (1 + aL * aL / (d2 + 1e-12)); if (d2 < 1e-2 || fabs(h - 0.01) < 1e-4 || fabs(fabs(h) - nz / 2.) < 1e-4) cmp = false; break; }
      case CONF_STRINGYZ: { double r = sqrt(Z * Z + cy * cy); th = loopAngle(aL, r, cx) * (cx > 0 ? -1 : 1); double d2 = (r - aL) * (r - aL) + cx * cx; tol = 1e-6 + (g.dp() ? 1e-10 : 1e-4) * (1 + aL * aL / (d2 + 1e-12)); if (d2 < 1e-2) cmp = false; break; }
      case CONF_AXNOISE: { double d = std::arg(p * std::polar(1., -A)); if (ic.kcr < 3 && fabs(d) > ic.kcr + 8 * e * 8) { c.fail("range", "axnoise: angle %.6g away from mode0, more than kcr", d); return; } lo = std::min(lo, d); hi = std::max(hi, d); sx += d; cmp = false; break; }
      case CONF_SAXNOISE: { double d = std::abs(p) - 1; if (fabs(d) > ic.kcr + 32 * e) { c.fail("range", "saxnoise: modulus %.6g away from one, more than kcr", d); return; } if (std::abs(p) > 1e-3 && fabs(std::arg(p * std::polar(1., -A))) > 64 * e / std::min(1., std::abs(p))) { c.fail("angle", "saxnoise: angle %.8g instead of mode0", std::arg(p)); return; } lo = std::min(lo, d); hi = std::max(hi, d); sx += d; cmp = false; break; }
      default: { sx += p.real(); sy += p.imag(); cmp = false; } }
    if (cmp) { double d = std::abs(p / std::abs(p) - std::polar(1., th)) / (tol + 8 * e); if (d > worst) { worst = d; wx = x; wy = y; wz = z; } } }
  if (worst > 1) { cd p = q.m.at(wx, wy, wz); c.fail("angle", "%s: angle %.8g at (%d,%d,%d) instead of the documented one", nm(t), std::arg(p), wx, wy, wz); }
  if (t == CONF_AXNOISE || t == CONF_SAXNOISE) { double k = ic.kcr; if (N >= 64) { c.check(lo < -k * 0.6 && hi > k * 0.6, "spread", "%s covers [%.4g,%.4g] instead of [-kcr,kcr], kcr=%.4g", nm(t), lo, hi, k); c.near(sx / N, 0, 7 * k / sqrt(3. * N), "mean", "%s: mean deviation", nm(t)); } }
  if (t == CONF_RAND) { c.near(sx / N, 0, 7 / sqrt(2. * N), "mean", "random: mean of the cosine"); c.near(sy / N, 0, 7 / sqrt(2. * N), "mean", "random: mean of the sine"); double cr = 0; for (size_t i = 0; i < N; i++) { int x = i % n, y = i / n % n, z = i / n / n; cr += (q.m.at(x, y, z) * std::conj(q.m.at(x, y, z + f.lz()))).real() / (R * R); } if (nz > f.lz()) c.near(cr / N, 0, 10 / sqrt(2. * N), "copy", "random: correlation of the slabs of different processes"); }
  c.nontrivial = true; }
// smoothing: the weighted average with the six neighbours, repeated; conserves the mean
LAW(C28, smooth, 500, 8000, NP1 | NP2 | NP3) {
  Cfg g; geom(c, g, false, 16); int it = c.range(0, 6); double al = c.chance(1, 4) ? 0.143 : c.real(-0.2, 1); Content k = drawContent(c, c.logreal(0.1, 5), cd(c.real(-2, 2), c.real(-2, 2))); c.say("%s iterations=%d alpha=%.6g kind=%d", g.str().c_str(), it, al, k.kind); int n = g.n, nz = g.nz;
  Fld f(g); f.poisonGhosts(); Grid m = fillGrid(k, n, nz, true, g.prec); scatterM(f, m); { Quiet q; smoothXeon(f.s, it, al); } Grid o = gatherM(f); double amp = 0; cd s0 = 0, s1 = 0; for (auto &x : m.d) { amp = std::max(amp, std::abs(x)); s0 += x; }
  for (int i = 0; i < it; i++) { Grid p = m; for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) p.at(x, y, z) = al * m.at(x, y, z) + (1 - al) / 6 * (m.at(x + 1, y, z) + m.at(x - 1, y, z) + m.at(x, y + 1, z) + m.at(x, y - 1, z) + m.at(x, y, z + 1) + m.at(x, y, z - 1)); m = p; }
  double gr = pow(std::max(1., fabs(al) + fabs(1 - al)), it), w = 0; for (size_t i = 0; i < o.d.size(); i++) { w = std::max(w, std::abs(o.d[i] - m.d[i])); s1 += o.d[i]; } c.near(w, 0, 16 * g.eps() * amp * gr * (it + 1), "average", "smoothed field off by"); double N = o.d.size(); c.near(std::abs(s1 - s0) / N, 0, (32 * g.eps() + 1e-16 * N) * amp * gr * (it + 1), "mean", "mean changed by"); ghosts(c, f, o); c.nontrivial = k.kind != 0 && it > 0; }
// modes: amplitude as a function of the momentum, cut, zero mode, phases
LAW(C28, modes, 500, 9000, NP1 | NP2 | NP3 | NP4) {
  Cfg g; MomConfType t = c.pick<MomConfType>({MOM_MFLAT, MOM_MSIN, MOM_MVSINCOS, MOM_MEXP, MOM_MEXP2, MOM_COLE, MOM_KCOLE, MOM_SPAX, MOM_MVTHERMAL}); geom(c, g, false, 20); bool half = t == MOM_SPAX || (c.chance(1, 4) && t != MOM_MVSINCOS && t != MOM_MVTHERMAL); g.type = half ? FIELD_AXION : FIELD_SAXION;
  int n = g.n, nz = g.nz, np = commSize(); MomParms p; p.mocoty = t; p.kMax = c.chance(1, 4) ? n : c.range(1, n / 2 + 2); p.kCrt = c.logreal(0.5, 20); p.cmplx = !half; p.randommom = c.flip(); p.k0 = 2 * M_PI / g.L; p.mass2 = c.logreal(0.1, 20) * p.k0 * p.k0; if (t == MOM_MVTHERMAL) p.kCrt = sqrt(p.mass2) * c.logreal(0.3, 5);
  std::vector<double> tab; if (t == MOM_SPAX) { uint64_t sd = c.seed(); for (int i = 0; i < 2 * n + nz + 4; i++) tab.push_back(1.5 + hreal(sd + i)); p.mfttab = tab; } mode0 = c.flip() ? c.real(-3, 3.1) : 10; double md = mode0, mP2 = 0;
  c.say("%s type=%d kMax=%zu kcrit=%.6g %s random=%d mode0=%.6g", g.str().c_str(), (int)t, p.kMax, p.kCrt, half ? "half" : "full", p.randommom, md); c.label("type" + std::to_string((int)t));
  Fld f(g); void *buf = half ? f.s->m2Cpu() : f.s->mStart(); p.mp = buf; p.vp = f.s->vStart(); int mx = half ? n / 2 + 1 : n, ly = n / np; size_t M = (size_t)mx * ly * nz; for (size_t i = 0; i < 2 * M; i++) f.putReal(buf, i, NAN); { Quiet q; momConf(f.s, p); }
  auto cx = [&](const void *b, size_t i) { return cd(f.real(b, 2 * i), f.real(b, 2 * i + 1)); }; long long km = p.kMax > (size_t)(n / 2 - 1) ? n / 2 - 1 : p.kMax; double e = g.eps(), s2 = 0, s4 = 0, vs = 0; cd s1 = 0; size_t cnt = 0; bool vel = t == MOM_MVSINCOS;
  auto all = [&]() {
  for (int y = 0; y < ly; y++) for (int z = 0; z < nz; z++) for (int x = 0; x < mx; x++) {
    size_t i = x + (size_t)mx * (z + (size_t)nz * y); int px = x > n / 2 ? x - n : x, yy = y + ly * commRank(), py = yy > n / 2 ? yy - n : yy, pz = z > nz / 2 ? z - nz : z; long long q = (long long)px * px + (long long)py * py + (long long)pz * pz; cd a = cx(buf, i); double k = sqrt((double)q), u = k / p.kCrt, sh = 1, rel = 0;
    if (q == 0 && t != MOM_SPAX) { if (md < 3.141592) { c.near(std::abs(a - std::polar(1., md)), 0, 8 * e, "zeromode", "zero mode differs from exp(i mode0) by"); continue; } if (t != MOM_MVTHERMAL) c.near(std::arg(a * std::polar(1., -mode0)), 0, 16 * e, "zeromode", "the reported phase of the zero mode is off by"); }
    if (q > 3 * km * km) { if (!(a == cd(0, 0))) { c.fail("cut", "mode (%d,%d,%d) beyond the maximum momentum %lld is %g%+gi", px, py, pz, km, a.real(), a.imag()); return; } if (vel && !(cx(f.s->vCpu(), i) == cd(0, 0))) { c.fail("cut", "velocity mode (%d,%d,%d) beyond the maximum momentum", px, py, pz); return; } continue; }
    switch (t) { case MOM_MSIN: case MOM_MVSINCOS: sh = q ? sin(u) / u : 1; rel = 4 * e * (1 + u); break; case MOM_MEXP: sh = exp(-u); rel = 8 * e * (1 + u); break; case MOM_MEXP2: case MOM_KCOLE: sh = exp(-u * u); rel = 16 * e * (1 + u * u); break;
      case MOM_COLE: { double bee = 4 * p.kCrt * p.kCrt / ((double)n * n); sh = exp(-bee * u * u) / pow(u * u + 1, 1.5); rel = 32 * e * (1 + bee * u * u); break; } case MOM_SPAX: { int b = (int)k; double h = k; if (!g.dp()) h = (float)k; b = (int)h; sh = tab[b] + (tab[b + 1] - tab[b]) * (h - b); rel = 8 * e * (1 + k); break; }
      case MOM_MVTHERMAL: { double E = sqrt(q * p.k0 * p.k0 + p.mass2), oc = 1 / (exp(E / p.kCrt) - 1); sh = q ? sqrt(oc / E) : 0; rel = 32 * e * (2 + E / p.kCrt); cd v = cx(f.s->vCpu(), i); if (q) { vs += std::norm(v) / (oc * E); mP2++; } break; } default: break; }
    double am = std::abs(a), tol = fabs(sh) * (rel + 16 * e) + 32 * e * (t == MOM_MSIN || vel ? 1 : fabs(sh)) + (g.dp() ? 1e-150 : 1e-18); if (!std::isfinite(am)) { c.fail("finite", "mode (%d,%d,%d) is not a number", px, py, pz); return; }
    if (!p.randommom) { if (fabs(am - fabs(sh)) > tol) { c.fail("amplitude", "amplitude of the mode (%d,%d,%d) is %.8g instead of %.8g", px, py, pz, am, fabs(sh)); return; } } else if (fabs(sh) > 1e-3) { s2 += am * am / (sh * sh); s4++; }
    if (vel && fabs(sh) > 1e-2 && q) { double r = cos(u) - sh; cd v = cx(f.s->vCpu(), i); if (std::abs(v - a / sh * r) > 1e-30 + std::abs(a / sh) * (64 * e * (1 + u) / fabs(sh))) { c.fail("velocity", "velocity of the mode (%d,%d,%d) is %g%+gi; the mode is %g%+gi", px, py, pz, v.real(), v.imag(), a.real(), a.imag()); return; } }
    if (am > 1e-20 && q) { s1 += a / am; cnt++; } } }; all();
  if (vel && commRank() == 0) { cd v = cx(f.s->vCpu(), 0); c.near(std::abs(v), 0, 8 * e, "zerovelocity", "velocity of the zero mode"); }
  double in[7] = {s1.real(), s1.imag(), (double)cnt, s2, s4, vs, mP2}, o[7]; MPI_Allreduce(in, o, 7, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
  if (o[2] >= 30) { c.near(std::hypot(o[0], o[1]) / o[2], 0, 6 / sqrt(o[2]), "phases", "mean phase factor of the modes"); } if (o[4] >= 50) c.near(o[3] / o[4], 1, 9 * sqrt(2 / o[4]) + 30 / o[4], "power", "mean squared amplitude over the requested one"); if (o[6] >= 50) c.near(o[5] / o[6], 1, 9 * sqrt(2 / o[6]) + 30 / o[6], "power", "thermal: mean squared velocity over the requested one");
  c.nontrivial = o[2] > 6; }
// whole mode-based and smoothed generators: modulus, velocity, normalisation
LAW(C28, whole, 400, 6000, NP1 | NP2 | NP3 | NP4) {
  Cfg g; geom(c, g, true, 16); IcData ic = ics(g); ConfType t = c.pick<ConfType>({CONF_KMAX, CONF_LOLA, CONF_VILGOR, CONF_COLE, CONF_TKACHEV, CONF_SMOOTH, CONF_TKACHEV, CONF_VILGORS}); ic.cType = t; ic.kMax = c.range(0, g.n / 2); ic.kcr = c.logreal(0.3, 3); ic.siter = c.range(0, 2); ic.kickalpha = c.chance(1, 3) ? c.real(-0.9, 2) : 0; ic.logi = c.real(0, 4);
  if (t == CONF_KMAX) ic.mocoty = c.pick<MomConfType>({MOM_MEXP2, MOM_MEXP, MOM_MFLAT}); if (t == CONF_TKACHEV || t == CONF_COLE) { g.mink = false; if (g.frw == 0) g.frw = 1; } if (t == CONF_TKACHEV) { ic.kcr = c.logreal(0.005, 0.03); ic.kMax = c.range(2, g.n); } if (t == CONF_VILGORS || (t == CONF_LOLA && !ic.kMax)) { g.zi = std::max(g.zi, 1.); g.L = std::max(2., std::min(g.L, g.zi * g.n * (t == CONF_LOLA ? 0.3 : 1))); }
  Bg b = bg(g, g.zi); double R = g.mink ? 1 : b.R, e = g.eps(); double md = c.flip() ? c.real(-3, 3) : 10; c.say("%s ctype=%d kMax=%zu kcr=%.6g sIter=%zu kick=%.4g logi=%.4g moco=%d mode0=%.4g", g.str().c_str(), (int)t, ic.kMax, ic.kcr, ic.siter, ic.kickalpha, ic.logi, (int)ic.mocoty, md); c.label("ctype" + std::to_string((int)t));
  Fld f(g); Gen q = generate(f, ic, md); if (q.bad) { c.fail("finite", "the generated field is not finite"); return; } ghosts(c, f, q.m); c.check(!f.s->Folded(), "folded", "the generated field is marked as folded"); size_t N = q.m.d.size(); int n = g.n;
  double cst = 0; for (auto &x : q.m.d) cst = std::max(cst, std::abs(x - q.m.d[0])); c.nontrivial = cst > 1e-3 * R;
  if (t == CONF_COLE) { double s = 0; for (auto &x : q.m.d) s += std::abs(x); c.near(s / N / R, 1, 32 * e + 1e-15 * N, "mean", "mean modulus over the scale factor"); double w = 0; for (size_t i = 0; i < N; i++) w = std::max(w, std::abs(q.v.d[i] - q.m.d[i] / R * (1 + ic.kickalpha)) / (1 + std::abs(q.m.d[i] / R))); c.near(w, 0, 16 * e * (1 + fabs(1 + ic.kickalpha)), "velocity", "velocity differs from (1+kick) times the normalised field by"); return; }
  modulus(c, q.m, R, 16 * e, "whole");
  if (t == CONF_TKACHEV) {
    std::vector<cd> a(N), d(N); double s2 = 0, mx = 0; for (size_t i = 0; i < N; i++) { double th = std::arg(q.m.d[i]); cd r = q.v.d[i] / q.m.d[i]; a[i] = th; d[i] = r.imag(); s2 += th * th; mx = std::max(mx, fabs(th)); if (fabs(r.real() - b.Rp) > 64 * e * (b.Rp + fabs(r.imag()))) { c.fail("radial", "R'/R in the velocity is %.8g instead of %.8g", r.real(), b.Rp); return; } }
    if (mx > 3) return; c.near(s2 / N / (M_PI * M_PI / 3 * ic.kcr), 1, 64 * e + 1e-12, "power", "mean squared angle over pi^2 kcr/3"); dft(a, n, n, -1); dft(d, n, n, -1); double kc = g.L / (2 * M_PI * g.zi), big = 0, w = 0; auto sg = [&](int k) { return k > n / 2 ? k - n : k; }; for (size_t i = 0; i < N; i++) big = std::max(big, std::abs(a[i]));
    long long km = std::min<long long>(ic.kMax, n / 2 - 1); for (size_t i = 0; i < N; i++) { int kx = sg(i % n), ky = sg(i / n % n), kz = sg(i / n / n); long long k2 = kx * kx + ky * ky + kz * kz; double u = sqrt((double)k2) / kc, tol = big * (64 * e + 1e-12) * sqrt((double)N); if (k2 > 3 * km * km) { w = std::max(w, std::abs(a[i]) / tol); w = std::max(w, std::abs(d[i]) * g.zi / tol); continue; } if (!k2) { w = std::max(w, std::abs(d[i]) * g.zi / tol); continue; } double sc = sin(u) / u; if (fabs(sc) < 1e-2) continue; w = std::max(w, std::abs(d[i] * g.zi - a[i] / sc * (cos(u) - sc)) / tol * fabs(sc) / (1 + u)); }
    c.near(w, 0, 1, "modes", "velocity modes against the superhorizon-to-oscillating solution, or modes beyond the cut: error over tolerance"); return; }
  if (g.mink) { if (t == CONF_SMOOTH) velocity(c, q, 0, 8 * e, "whole"); return; }
  if (t == CONF_SMOOTH) velocity(c, q, b.Rp * (1 + ic.kickalpha), 16 * e, "whole"); else velocity(c, q, (1 + (t == CONF_LOLA || t == CONF_VILGOR ? ic.kickalpha : 0)) / R, 16 * e, "whole"); }
// axion waves with a prescribed spectrum
LAW(C28, spectrum, 300, 5000, NP1 | NP2 | NP3) {
  Cfg g; geom(c, g, false, 16); if (g.mink) { g.mink = false; g.frw = 1; } bool sax = c.flip(), str = sax && c.flip(); g.type = sax ? FIELD_SAXION : FIELD_AXION; IcData ic = ics(g); ic.cType = CONF_SPAX; ic.randommom = false; ic.siter = str ? 0 : 1; ic.kcr = str ? 1 : 0; ic.logi = 1; ic.kMax = c.range(0, 1); if (str) { g.zi = std::max(g.zi, 1.); g.L = std::max(2., std::min(g.L, g.zi * g.n * 0.3)); } int n = g.n, nz = g.nz, which = c.range(0, 1);
  uint64_t sd = c.seed(); std::vector<double> tm, tv; double amp = (sax ? 0.3 : 3) / sqrt((double)n * n * nz); Bg b = bg(g, g.zi); for (int i = 0; i < 2 * n + nz + 4; i++) { tm.push_back(amp * b.R * (which || !sax ? 1 + 0.5 * hreal(sd + i) : 0)); tv.push_back(amp * b.R * (!which || !sax ? 1 + 0.5 * hreal(sd - i) : 0)); }
  c.say("%s %s kMax=%zu which=%d", g.str().c_str(), !sax ? "axion" : str ? "saxion with strings" : "saxion", ic.kMax, which); c.label(!sax ? "axion" : str ? "saxion with strings" : "saxion"); if (commRank() == 0) { FILE *o = fopen("initialspectrum.dat", "w"); for (size_t i = 0; i < tm.size(); i++) fprintf(o, "%.17g %.17g\n", tm[i], tv[i]); fclose(o); } commSync();
  Fld f(g); Gen q = generate(f, ic); commSync(); if (commRank() == 0) remove("initialspectrum.dat"); if (q.bad) { c.fail("finite", "the generated field is not finite"); return; } size_t N = q.m.d.size(); double R = b.R, e = g.eps(); std::vector<cd> a(N), d(N);
  if (!sax) for (size_t i = 0; i < N; i++) { a[i] = q.m.d[i].real(); d[i] = q.v.d[i].real(); }
  else { modulus(c, q.m, R, 16 * e, "waves"); for (size_t i = 0; i < N; i++) { cd r = q.v.d[i] / q.m.d[i]; a[i] = str ? 0 : R * std::arg(q.m.d[i]); if (fabs(r.real() - b.Rp) > 64 * e * (b.Rp + fabs(r.imag()) + 1)) { c.fail("radial", "R'/R in the velocity is %.8g instead of %.8g", r.real(), b.Rp); return; } d[i] = r.imag() * R; } }
  dft(a, n, nz, -1); dft(d, n, nz, -1); auto sg = [](int k, int n) { return k > n / 2 ? k - n : k; }; double sc = 0; long long km = n / 2 - 1; size_t used = 0; double bigm = 0; for (size_t i = 0; i < N; i++) bigm = std::max(bigm, std::max(std::abs(a[i]), std::abs(d[i])));
  auto val = [&](const std::vector<double> &t, double k) { int b = (int)k; return t[b] + (t[b + 1] - t[b]) * (k - b); }; double tol = (64 * e + 1e-12) * sqrt((double)N) * bigm * (1 + (sax ? b.Rp : 0)) + (sax ? 64 * e * R * (1 + b.Rp) * sqrt((double)N) : 0) + amp * R * (double)N * 16 * e * n; (void)sc;
  for (size_t i = 0; i < N; i++) { int kx = sg(i % n, n), ky = sg(i / n % n, n), kz = sg(i / n / n, nz); long long k2 = kx * kx + ky * ky + kz * kz; double k = sqrt((double)k2); bool in = k2 <= 3 * km * km; if (!g.dp()) k = (float)k; double wm = in ? N * val(tm, k) : 0, wv = in ? N * val(tv, k) : 0; bool edge = kx == 0 || kx == n / 2; if (edge && in) continue; used++;
    if (sax) { wv = which ? b.Rp * wm : wv; }
    if (!str && fabs(std::abs(a[i]) - wm) > tol) { c.fail("field", "mode (%d,%d,%d) of the axion has amplitude %.8g instead of %.8g", kx, ky, kz, std::abs(a[i]) / N, wm / N); return; }
    if (fabs(std::abs(d[i]) - wv) > tol) { c.fail("velocity", "mode (%d,%d,%d) of the axion velocity has amplitude %.8g instead of %.8g", kx, ky, kz, std::abs(d[i]) / N, wv / N); return; } }
  c.nontrivial = used > 10; }
