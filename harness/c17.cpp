// C17: string and axiton masks against their definitions on the global lattice
#include "spec.h"
#include "utils/parse.h"
#include <mpi.h>
#include <map>
namespace {
// string data of the whole lattice: at most one sign per plaquette direction
struct Map { int n, nz, mode; uint64_t sd; double dens;
  int bits(int x, int y, int z) const { x = (x % n + n) % n; y = (y % n + n) % n; z = (z % nz + nz) % nz; uint64_t h = mix(sd ^ mix(((uint64_t)z << 40) ^ ((uint64_t)y << 20) ^ (uint64_t)x)); int b = 0;
    if (mode == 1) { uint64_t q = mix(sd); int ax = q % 3, a = (q >> 8) % n, d = (q >> 24) % n; if (ax == 0 && x == a && y == d) b = STRING_XY_POSITIVE; if (ax == 1 && y == a && z == d % nz) b = STRING_YZ_NEGATIVE; if (ax == 2 && x == a && z == d % nz) b = STRING_ZX_POSITIVE; return b; }
    if ((h >> 11) * (1. / (1ull << 53)) >= dens) return 0; h = mix(h + 5); int w = 1 + h % 7; for (int i = 0; i < 3; i++) if (w >> i & 1) { const int P[3] = {STRING_XY_POSITIVE, STRING_YZ_POSITIVE, STRING_ZX_POSITIVE}, Q[3] = {STRING_XY_NEGATIVE, STRING_YZ_NEGATIVE, STRING_ZX_NEGATIVE}; b |= (h >> (10 + i)) & 1 ? P[i] : Q[i]; } return b; }
  int noise(int x, int y, int z) const { uint64_t h = mix(sd * 31 + mix(((uint64_t)z << 40) ^ ((uint64_t)y << 20) ^ (uint64_t)x)); return h % 3 == 0 ? STRING_WALL : 0; } };
typedef std::vector<char> Set;
size_t at(int n, int nz, int x, int y, int z) { return ((size_t)((z + 8 * nz) % nz) * n + (y + 8 * n) % n) * n + (x + 8 * n) % n; }
// corners of the pierced plaquettes
Set corners(const Map &M) { int n = M.n, nz = M.nz; Set v((size_t)n * n * nz, 0); for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) { int b = M.bits(x, y, z); auto mk = [&](int X, int Y, int Z) { v[at(n, nz, x + X, y + Y, z + Z)] = 1; };
    if (b & STRING_XY) { mk(0, 0, 0); mk(1, 0, 0); mk(0, 1, 0); mk(1, 1, 0); } if (b & STRING_YZ) { mk(0, 0, 0); mk(0, 1, 0); mk(0, 0, 1); mk(0, 1, 1); } if (b & STRING_ZX) { mk(0, 0, 0); mk(1, 0, 0); mk(0, 0, 1); mk(1, 0, 1); } } return v; }
Set ball(const Set &v, int n, int nz, double r) { Set m(v.size(), 0); int k = floor(r) + 1; std::vector<std::array<int, 3>> off; for (int z = -k; z <= k; z++) for (int y = -k; y <= k; y++) for (int x = -k; x <= k; x++) if (x * x + y * y + z * z <= r * r) off.push_back({x, y, z});
  for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) if (v[((size_t)z * n + y) * n + x]) for (auto &o : off) m[at(n, nz, x + o[0], y + o[1], z + o[2] )] = 1; return m; }
double radius(Case &c, double top) { double r = c.flip() ? 0.5 * c.range(0, (int)(2 * top)) : c.real(0, top); if (fabs(r * r - round(r * r)) < 1e-6 && fabs(2 * r - round(2 * r)) > 1e-12) r += 1e-3; return std::min(r, top); }
Map drawMap(Case &c, const Cfg &g) { Map M{g.n, g.nz, c.chance(1, 4) ? 1 : 0, c.seed(), 0}; M.dens = c.chance(1, 6) ? 0 : c.logreal(0.3, 300) / ((double)g.n * g.n * g.nz); return M; }
void setStrings(Fld &f, const Map &M, bool stale) { char *sd = (char *)f.s->sData(); int n = f.n(); size_t i = 0; for (int z = 0; z < f.lz(); z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++, i++) sd[i] = M.bits(x, y, z + f.z0()) | M.noise(x, y, z + f.z0()) | (stale && (i * 2654435761u >> 7) % 3 == 0 ? STRING_MASK : 0); f.s->setSD(SD_MAP); }
// 0/1 membership of the mask in the string data, and the string data themselves
bool sameSet(Case &c, Fld &f, const Map &M, const char *what, const std::function<int(size_t)> &want) { char *sd = (char *)f.s->sData(); int n = f.n(); size_t i = 0, z0 = f.z0(); for (int z = 0; z < f.lz(); z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++, i++) { int w = want(i + z0 * n * n), got = (sd[i] & STRING_MASK) != 0; if (w >= 0 && w != got) { c.fail(what, "site (%d,%d,%zu) is %s by its mask bit, the definition says %s", x, y, z + z0, got ? "masked" : "free", w ? "masked" : "free"); return false; }
    int b = M.bits(x, y, z + z0) | M.noise(x, y, z + z0); if ((sd[i] & STRING_DEFECT) != b) { c.fail("strings", "string data at (%d,%d,%zu) are %d after the mask and were %d before", x, y, z + z0, sd[i] & STRING_DEFECT, b); return false; } } return true; }
bool sameField(Case &c, Fld &f, void *base, const char *what, double tol, const std::function<double(size_t)> &want) { size_t N = f.s->Size(), z0 = (size_t)f.z0() * f.s->Surf(); int n = f.n(); for (size_t i = 0; i < N; i++) { double w = want(i + z0), got = f.real(base, i); if (!std::isnan(w) && !(fabs(got - w) <= tol)) { c.fail(what, "value at (%zu,%zu,%zu) is %.9g, the definition gives %.9g (tolerance %.2g)", i % n, i / n % n, i / n / n + f.z0(), got, w, tol); return false; } } return true; }
const char *NM(SpectrumMaskType t) { switch (t) { case SPMASK_BALL: return "ball"; case SPMASK_REDO: return "redo"; case SPMASK_GAUS: return "gaus"; case SPMASK_DIFF: return "diff"; case SPMASK_VIL: return "vil"; case SPMASK_VIL2: return "vil2"; case SPMASK_AXIT: return "axit"; case SPMASK_AXIT2: return "axit2"; default: return "axitv"; } }
void saxGeom(Case &c, Cfg &g, bool cubic) { g.type = FIELD_SAXION; geom(c, g, cubic, false); }
// one mask of a complex field: what the string data, m2, m2half and the mask spectrum must be
void stringMask(Case &c, Fld &f, const Cfg &g, const Map &M, SpecBin &b, int nb, double mul, SpectrumMaskType t, double r, StatusM2 out) {
  Scalar *s = f.s; int n = g.n, nz = g.nz; size_t N = (size_t)n * n * nz; Set v = corners(M); std::vector<double> W(N), edge(N, 1); Set core(N, 0); double tolW = 0;
  { Quiet q; b.masker(r, t, out, c.flip()); }
  if (t == SPMASK_BALL) { core = ball(v, n, nz, r); for (size_t i = 0; i < N; i++) W[i] = !core[i]; }
  else if (t == SPMASK_DIFF) { std::vector<double> a(v.begin(), v.end()), b2(N); int it0 = (int)(size_t)r, its = (int)(size_t)(r * r); core = v;
    for (int it = 0; it <= its; it++) { Set nc = core; for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) { size_t i = at(n, nz, x, y, z); size_t o[6] = {at(n, nz, x + 1, y, z), at(n, nz, x - 1, y, z), at(n, nz, x, y + 1, z), at(n, nz, x, y - 1, z), at(n, nz, x, y, z + 1), at(n, nz, x, y, z - 1)}; if (core[i]) { b2[i] = 1; continue; } double S = 0; for (size_t k : o) S += a[k]; if (it < it0) { b2[i] = S > 0; if (S > 0) nc[i] = 1; } else b2[i] = S / 6; } a = b2; core = nc; }
    tolW = (its + 2) * 4 * g.eps(); for (size_t i = 0; i < N; i++) { W[i] = 1 - a[i]; edge[i] = a[i] - 0.5; if (a[i] > 0.5) core[i] = 1; } }
  else { Vec d(N); double l2 = 0; for (size_t i = 0; i < N; i++) { d[i] = v[i]; l2 += v[i]; } dft(d, n, nz, -1); double rs = r * ng0calib, cut = 2.5 * 4 / (2 * M_PI * rs * rs) * exp(-2. / (ng0calib * ng0calib)); for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) d[((size_t)z * n + y) * n + x] *= exp(-0.5 * M_PI * M_PI * rs * rs / (n * n) * (pow(sg(x, n), 2) + pow(sg(y, n), 2) + pow(sg(z, nz), 2))) / N; dft(d, n, nz, 1);
    double tol = 20 * g.eps() * (sqrt(l2 / N) * log2(N) + 1e-3) + 4 * g.eps() * cut; tolW = t == SPMASK_GAUS ? tol / cut + 4 * g.eps() : 0; for (size_t i = 0; i < N; i++) { double m = d[i].real(); core[i] = m > cut; edge[i] = (m - cut) / tol; W[i] = t == SPMASK_GAUS ? (m > cut ? 0 : 1 - m / cut) : !(m > cut); } }
  auto tie = [&](size_t i) { return t == SPMASK_BALL ? false : t == SPMASK_DIFF ? fabs(edge[i]) < 2 * tolW : fabs(edge[i]) < 1; }; bool anyTie = false; for (size_t i = 0; i < N; i++) if (tie(i)) anyTie = true;
  if (!sameSet(c, f, M, NM(t), [&](size_t i) { return tie(i) ? -1 : (int)core[i]; })) return;
  bool anti = out == M2_ANTIMASK; sameField(c, f, s->m2Cpu(), "m2", tolW * 1.1, [&](size_t i) { return t == SPMASK_REDO && tie(i) ? NAN : anti ? 1 - W[i] : W[i]; }); c.check(s->m2Status() == out, "status", "m2 status %d after asking for %d", (int)s->m2Status(), (int)out);
  if (t != SPMASK_BALL) sameField(c, f, s->m2half(), "m2half", tolW * 1.1, [&](size_t i) { return t == SPMASK_REDO && tie(i) ? NAN : W[i]; });
  if (!(t == SPMASK_REDO && anyTie)) { Vec d(N); for (size_t i = 0; i < N; i++) d[i] = W[i]; Spec w = spectrum(g, d, flat(1, tolW / g.eps() * sqrt((double)N)), nb, mul, [](int, int, int) { return 2.; }); same(c, "W", b.data(SPECTRUM_P), w); }
  if (t == SPMASK_REDO || t == SPMASK_GAUS || t == SPMASK_DIFF) c.check((s->sDStatus() & SD_MAPMASK) == SD_MAPMASK, "sdstatus", "string data status %d after the mask", (int)s->sDStatus());
  size_t k = 0; for (size_t i = 0; i < N; i++) k += core[i]; if (k && k < N) c.nontrivial = true; c.label(NM(t)); }
}
LAW(C17, strings, 700, 20000, NP1 | NP2 | NP3 | NP4) {
  Cfg g; SpectrumMaskType t[3]; double r[3]; StatusM2 out[3]; int k = c.chance(1, 2) ? 1 : c.range(2, 3); bool cubic = c.flip(); saxGeom(c, g, cubic); int nb; double mul; int lz = g.nz / commSize(); int ask = drawBins(c, g.n, g.nz, mul, nb); Map M = drawMap(c, g); bool stale = c.flip();
  std::string say; for (int i = 0; i < k; i++) { t[i] = c.pick<SpectrumMaskType>({SPMASK_BALL, SPMASK_REDO, SPMASK_GAUS, SPMASK_DIFF}); if (g.n != g.nz && (t[i] == SPMASK_REDO || t[i] == SPMASK_GAUS)) t[i] = c.flip() ? SPMASK_BALL : SPMASK_DIFF; r[i] = t[i] == SPMASK_BALL ? radius(c, std::min(6., lz + 0.999)) : c.real(t[i] == SPMASK_DIFF ? 0 : 0.7, 5); out[i] = c.flip() ? M2_MASK : M2_ANTIMASK; char q[64]; sprintf(q, " %s(%.6g)->%d", NM(t[i]), r[i], (int)out[i]); say += q; }
  c.say("%s bins=%d strings=%s %.4g stale=%d masks:%s", g.str().c_str(), ask, M.mode ? "line" : "random", M.dens, stale, say.c_str());
  Fld f(g); f.poisonGhosts(); Scalar *s = f.s; setStrings(f, M, stale); for (size_t i = 0; i < (size_t)s->eSize() * 2; i++) f.putReal(s->m2Cpu(), i, NAN); std::unique_ptr<SpecBin> b(specBin(c, f, ask)); for (int i = 0; i < k; i++) { stringMask(c, f, g, M, *b, nb, mul, t[i], r[i], out[i]); if (i) c.label("repeated"); } }
// larger balls around many strings, mostly with several threads
LAW(C17, crowd, 60, 3000, NP1 | NP2) {
  Cfg g; g.type = FIELD_SAXION; g.prec = FIELD_SINGLE; g.Ng = c.range(1, 2); g.n = 4 * c.range(2, 5); int lz = c.range(2, 16); while (g.n % commSize()) g.n += 4; lz = std::min(lz, g.n * g.Ng); g.nz = lz * commSize(); g.L = 1; Map M{g.n, g.nz, 0, c.seed(), c.logreal(0.0005, 0.05)}; double r = radius(c, std::min(lz + 0.999, 7.)); int reps = c.thorough ? 10 : 4; c.say("%s r=%.6g density=%.4g", g.str().c_str(), r, M.dens); Fld f(g); f.poisonGhosts(); std::unique_ptr<SpecBin> b(specBin(c, f, -1)); Set w = ball(corners(M), g.n, g.nz, r); size_t k = 0; for (char q : w) k += q; c.nontrivial = k && k < w.size();
  for (int i = 0; i < reps; i++) { setStrings(f, M, false); { Quiet q; b->masker(r, SPMASK_BALL, M2_MASK, false); } sameSet(c, f, M, "ball", [&](size_t j) { return (int)w[j]; }); } }
LAW(C17, modulus, 200, 6000, NP1 | NP2 | NP3 | NP4) {
  Cfg g; saxGeom(c, g, c.flip()); int n = g.n, nz = g.nz, nb; double mul; int ask = drawBins(c, n, nz, mul, nb); bool sq = c.flip(), fold = false; StatusM2 out = c.flip() ? M2_MASK : M2_ANTIMASK; Bg B = bg(g, g.zi); double R = B.R; Content k = drawContent(c, R, R * cd(c.real(-1, 1), c.real(-1, 1))); (void)fold; c.say("%s bins=%d vil%d ->%d", g.str().c_str(), ask, 1 + sq, (int)out);
  Fld f(g); f.poisonGhosts(); Scalar *s = f.s; double sh = s->Saskia() * R; if (!(fabs(sh) < 100 * R)) { c.discarded = true; return; } Grid m = fillGrid(k, n, nz, true, g.prec); for (auto &x : m.d) x = rndp(x + sh, g.prec); scatterM(f, m); Map none{n, nz, 0, c.seed(), 0}; setStrings(f, none, false); std::unique_ptr<SpecBin> b(specBin(c, f, ask)); { Quiet q; b->masker(c.real(0, 4), sq ? SPMASK_VIL2 : SPMASK_VIL, out, false); }
  size_t N = m.d.size(); std::vector<double> W(N); Vec d(N); double worst = 0; for (size_t i = 0; i < N; i++) { double a = std::abs(m.d[i] - sh) / R; W[i] = sq ? a * a : a; d[i] = W[i]; worst = std::max(worst, (std::abs(m.d[i]) + fabs(sh)) / R); } double tol = 8 * g.eps() * (sq ? (worst + 1) * (worst + 1) : worst + 1);
  sameField(c, f, s->m2Cpu(), "m2", tol, [&](size_t i) { return out == M2_MASK ? W[i] : 1 - W[i]; }); c.check(s->m2Status() == out, "status", "m2 status %d", (int)s->m2Status()); same(c, "W", b->data(SPECTRUM_P), spectrum(g, d, flat(1, tol / g.eps() * sqrt((double)N)), nb, mul, [](int, int, int) { return 2.; }));
  Grid gm = gatherM(f); for (size_t i = 0; i < N; i++) if (gm.d[i] != m.d[i]) { c.fail("source", "the mask changed the field at site %zu", i); break; } c.nontrivial = k.kind != 0; c.label(sq ? "vil2" : "vil"); }
LAW(C17, axitons, 400, 12000, NP1 | NP2 | NP3 | NP4) {
  Cfg g; g.type = FIELD_AXION; geom(c, g, false, false); if (g.indi3 == 0) g.indi3 = 1; int n = g.n, nz = g.nz, np = commSize(), lz = nz / np, nb; double mul; int kind = c.range(0, 2); if (kind == 1) { g.nz = nz = n; lz = nz / np; } int ask = drawBins(c, n, nz, mul, nb); SpectrumMaskType t = kind == 0 ? SPMASK_AXIT : kind == 1 ? SPMASK_AXIT2 : SPMASK_AXITV; bool cum = c.flip(), half = c.flip(); StatusM2 out = c.pick<StatusM2>({M2_ENERGY, M2_MASK, M2_ANTIMASK}); if (kind == 2) out = M2_ENERGY;
  double r = kind == 0 ? radius(c, std::min(5., lz + 0.999)) : c.real(0.7, 4); double fe = c.logreal(0.3, 30) / ((double)n * n * nz), ft = c.flip() ? 0 : c.logreal(0.3, 10) / ((double)n * n * nz), fm = c.logreal(0.3, 10) / ((double)n * n * nz); uint64_t sd = c.seed();
  c.say("%s bins=%d %s r=%.6g cumulative=%d half=%d out=%d fractions %.3g %.3g %.3g", g.str().c_str(), ask, NM(t), r, cum, half, (int)out, fe, ft, fm); Fld f(g); f.poisonGhosts(); Scalar *s = f.s; Bg B = bg(g, g.zi); size_t N = (size_t)n * n * nz; double R = B.R, eth = kind == 2 ? 0.5 * M_PI * M_PI * B.mA2 : 2 * B.mA2, tth = std::min(3., sqrt(12 / eth) / R / (g.L / n)); auto U = [&](size_t i, int k) { return 0.5 + 0.5 * hreal(mix(sd + 7919 * k) + i); };
  auto en = [&](size_t i) { return rndp(eth * (kind == 2 ? 3 * U(i, 1) * (U(i, 4) < 0.3) + 0.3 * U(i, 5) : U(i, 1) < fe ? 1.01 + 3 * U(i, 2) : 0.99 * U(i, 2)), g.prec); }; auto th = [&](size_t i) { double a = tth * (U(i, 6) < ft ? 1.01 + U(i, 7) : 0.99 * U(i, 7)); return rndp(R * (U(i, 8) < 0.5 ? a : -a), g.prec); }; auto old = [&](size_t i) { return U(i, 9) < fm; };
  size_t S = s->Surf(), z0 = f.z0(); Grid m(n, nz); for (size_t i = 0; i < N; i++) m.d[i] = th(i); scatterM(f, m); for (size_t i = 0; i < (size_t)s->eSize(); i++) f.putReal(s->m2Cpu(), i, NAN), f.putReal(s->m2half(), i, NAN); putMap(f, half ? s->m2half() : s->m2Cpu(), [&](int x, int y, int z) { return en(((size_t)z * n + y) * n + x); }); s->setM2(half ? M2_DIRTY : M2_ENERGY); s->setM2h(half ? M2_ENERGY : M2_DIRTY);
  char *st = (char *)s->sData(); for (size_t i = 0; i < s->Size(); i++) st[i] = (old(i + z0 * S) ? STRING_WALL : 0) | (U(i, 10) < 0.2 ? STRING_MASK : 0); std::unique_ptr<SpecBin> b(specBin(c, f, ask)); { Quiet q; b->masker(r, t, out, cum); }
  Set hit(N), core(N); std::vector<double> P(N); for (size_t i = 0; i < N; i++) hit[i] = en(i) > eth || fabs(th(i)) / R > tth || (cum && old(i)); bool tie = false; std::vector<char> ties(N, 0); size_t k = 0;
  if (kind == 0) core = ball(hit, n, nz, r); if (kind == 1) { Vec d(N); double l2 = 0; for (size_t i = 0; i < N; i++) { d[i] = hit[i]; l2 += hit[i]; } dft(d, n, nz, -1); for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) d[((size_t)z * n + y) * n + x] *= exp(-0.5 * M_PI * M_PI * r * r / (n * n) * (pow(sg(x, n), 2) + pow(sg(y, n), 2) + pow(sg(z, nz), 2))) / N; dft(d, n, nz, 1); double rs = r * ng0calib, cut = 2.5 * 4 / (2 * M_PI * rs * rs) * exp(-2. / (ng0calib * ng0calib)), tol = 20 * g.eps() * (sqrt(l2 / N) * log2(N) + 1e-3) + 4 * g.eps() * cut; for (size_t i = 0; i < N; i++) { core[i] = d[i].real() > cut; ties[i] = fabs(d[i].real() - cut) < tol; if (ties[i]) tie = true; } }
  Vec d(N); for (size_t i = 0; i < N; i++) { double e = en(i); P[i] = kind == 2 ? e * 0.5 * (1 - tanh(5 * (e / eth - 1))) : core[i] ? 0 : e; d[i] = P[i]; k += kind == 2 ? e > eth : core[i]; }
  if (kind < 2) for (size_t i = 0; i < s->Size(); i++) { int w = core[i + z0 * S]; if (!ties[i + z0 * S] && w != ((st[i] & STRING_MASK) != 0)) { c.fail("set", "site (%zu,%zu,%zu) is %s, the definition says %s", i % n, i / n % n, i / S + z0, w ? "free" : "masked", w ? "masked" : "free"); break; } if (((st[i] & STRING_WALL) != 0) != (bool)hit[i + z0 * S]) { c.fail("core", "site (%zu,%zu,%zu): axiton label is %d, the thresholds say %d", i % n, i / n % n, i / S + z0, st[i] & STRING_WALL, hit[i + z0 * S]); break; } }
  if (!tie) same(c, "P", b->data(SPECTRUM_P), spectrum(g, d, flat(1, kind == 2 ? 40 * eth * sqrt((double)N) : 0), nb, mul, [](int, int, int) { return 1.; }));
  sameField(c, f, s->m2Cpu(), "m2", 0, [&](size_t i) { return ties[i] ? NAN : out == M2_ENERGY ? en(i) : out == M2_MASK ? !core[i] : core[i]; }); c.check(s->m2Status() == out, "status", "m2 status %d instead of %d", (int)s->m2Status(), (int)out); sameField(c, f, s->m2half(), "m2half", 0, en);
  Grid gm = gatherM(f); for (size_t i = 0; i < N; i++) if (gm.d[i] != m.d[i]) { c.fail("source", "the mask changed the field at site %zu", i); break; } c.nontrivial = k && k < N; c.label(NM(t)); if (cum) c.label("cumulative"); }
// the radius reaches beyond the neighbouring slab
LAW(C17, thin, 60, 1500, NP1 | NP2 | NP3 | NP4) {
  Cfg g; saxGeom(c, g, false); int lz = c.range(std::max(1, g.Ng), std::max(g.Ng, 3)); g.nz = lz * commSize(); Map M = drawMap(c, g); double r = lz + 1 + 0.5 * c.range(0, 4); c.say("%s r=%.6g strings=%s %.4g", g.str().c_str(), r, M.mode ? "line" : "random", M.dens); Fld f(g); f.poisonGhosts(); setStrings(f, M, false); std::unique_ptr<SpecBin> b(specBin(c, f, -1)); { Quiet q; b->masker(r, SPMASK_BALL, M2_MASK, false); } Set w = ball(corners(M), g.n, g.nz, r); size_t k = 0; for (char q : w) k += q; c.nontrivial = k && k < w.size(); sameSet(c, f, M, "radius_exceeds_slab", [&](size_t j) { return (int)w[j]; }); }
