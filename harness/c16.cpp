// C16: binned power spectra, filters and the string-core correction against direct Fourier sums of the lattice fields
#include "spec.h"
#include "utils/kgvops.h"
#include <mpi.h>
using namespace ref;
LAW(C16, energy, 500, 16000, NP1 | NP2 | NP3 | NP4) {
  Cfg g; g.type = c.pick<FieldType>({FIELD_SAXION, FIELD_AXION}); geom(c, g, c.flip(), false); int n = g.n, nz = g.nz, nb; double mul; int ask = drawBins(c, n, nz, mul, nb); Content e = drawContent(c, 0.6, 1.); bool half = c.flip(), again = c.flip(); c.say("%s bins=%d half=%d again=%d", g.str().c_str(), ask, half, again);
  Fld f(g); Scalar *s = f.s; f.poisonGhosts(); Grid en = fillGrid(e, n, nz, false, g.prec); putMap(f, half ? s->m2half() : s->m2Cpu(), [&](int x, int y, int z) { return en.at(x, y, z).real(); }); s->setM2(half ? M2_DIRTY : M2_ENERGY); s->setM2h(half ? M2_ENERGY : M2_DIRTY);
  std::unique_ptr<SpecBin> b(specBin(c, f, ask)); if (!c.check((int)b->PowMax() == nb, "bins", "%zu bins instead of %d", b->PowMax(), nb)) return; { Quiet q; b->nmodRun(); b->avekRun(); b->pRun(); if (again) b->pRun(); }
  same(c, "power", b->data(SPECTRUM_P), spectrum(g, en.d, flat(1, 0), nb, mul, [](int, int, int) { return 1.; }));
  std::vector<double> cnt(nb), k2(nb); for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) { double q = pow(sg(x, n), 2) + pow(sg(y, n), 2) + pow(sg(z, nz), 2); int i = floor(mul * sqrt(q)); cnt[i]++; k2[i] += q; }
  for (int i = 0; i < nb; i++) { c.near((*b)(i, SPECTRUM_NN), cnt[i], 1e-6, "modes", "modes in bin %d of %d", i, nb); c.near((*b)(i, SPECTRUM_AK), k2[i], 1e-9 * k2[i], "k2", "sum of k^2 in bin %d of %d", i, nb); }
  c.check(s->m2Status() == M2_ENERGY_FFT, "status", "m2 status %d after the power spectrum", (int)s->m2Status()); c.nontrivial = e.kind != 0; c.label(half ? "from half" : "from m2"); if (ask > 0) c.label("own bins"); if (n != nz) c.label("not cubic"); }
LAW(C16, axion, 400, 14000, NP1 | NP2 | NP3 | NP4) {
  Cfg g; g.type = c.pick<FieldType>({FIELD_AXION, FIELD_AXION_MOD}); bool fold = c.chance(1, 3); geom(c, g, true, fold); int n = g.n, nb; double mul; int ask = drawBins(c, n, n, mul, nb); Bg B = bg(g, g.zi); double amp = c.logreal(0.01, 3) * B.R; Content km = drawContent(c, amp, c.real(-1, 1) * B.R), kv = drawContent(c, amp, 0); int what = c.range(1, 15); bool masked = c.flip(); uint64_t ms = c.seed(); int dens = c.range(0, 10);
  c.say("%s folded=%d bins=%d spectra=%d masked=%d(%d) amplitude=%.3g", g.str().c_str(), fold, ask, what, masked, dens, amp); Fld f(g); Scalar *s = f.s; if (fold) f.fold(); f.poisonGhosts(); Grid m = fillGrid(km, n, n, false, g.prec), v = fillGrid(kv, n, n, false, g.prec); scatterM(f, m); scatterV(f, v);
  auto hid = [&](size_t i) { return masked && (int)(mix(ms + i) % 10) < dens; }; char *sd = (char *)s->sData(); size_t S = s->Surf(); for (size_t i = 0; i < s->Size(); i++) { size_t G_ = i + (size_t)f.z0() * S; sd[i] = (hid(G_) ? STRING_MASK : 0) | (mix(ms + G_ + 7) & 0x7f & ~(int)STRING_MASK); } s->setSD(masked ? SD_AXITONMASK : SD_DIRTY);
  std::unique_ptr<SpecBin> b(specBin(c, f, ask)); { Quiet q; b->nRun(masked ? SPMASK_AXIT2 : SPMASK_FLAT, (nRunType)what); }
  double m2 = B.mA2 * B.R * B.R, k0 = pow(2 * M_PI / g.L, 2); Vec M = m.d, V = v.d, Sn = m.d; for (size_t i = 0; i < M.size(); i++) { Sn[i] = 2 * B.R * sin(M[i].real() / (2 * B.R)); if (hid(i)) M[i] = V[i] = Sn[i] = 0; }
  auto one = [](int, int, int) { return 1.; }; auto kk = [&](int x, int y, int z) { return k0 * (x * x + y * y + z * z); }; auto mm = [&](int, int, int) { return m2; };
  if (what & NRUN_K) same(c, "K", b->data(SPECTRUM_KK), spectrum(g, V, flat(1, 0), nb, mul, one)); if (what & NRUN_G) same(c, "G", b->data(SPECTRUM_GG), spectrum(g, M, flat(1, 0), nb, mul, kk)); if (what & NRUN_V) same(c, "V", b->data(SPECTRUM_VV), spectrum(g, M, flat(1, 0), nb, mul, mm));
  if (what & NRUN_S) { std::vector<double> sc; for (auto &x : m.d) sc.push_back(2 * B.R + std::abs(x)); same(c, "S", b->data(SPECTRUM_VVNL), spectrum(g, Sn, sc, nb, mul, mm)); }
  Grid gm = gatherM(f), gv = gatherV(f); for (size_t i = 0; i < gm.d.size(); i++) if (gm.d[i] != m.d[i] || gv.d[i] != v.d[i]) { c.fail("source", "the spectra changed the field at site %zu", i); break; }
  c.nontrivial = km.kind && kv.kind && (!masked || (dens > 0 && dens < 10)); c.label(masked ? "masked" : "flat"); }
namespace {
const SpectrumMaskType MASKS[] = {SPMASK_FLAT, SPMASK_VIL, SPMASK_VIL2, SPMASK_REDO, SPMASK_BALL, SPMASK_GAUS, SPMASK_DIFF}; const char *MN[] = {"flat", "vil", "vil2", "redo", "ball", "gaus", "diff"};
struct Sax { Cfg g; Bg B; Grid m, v; double shift; Vec ph; double scl; };   // ph: the field without the shift
}
LAW(C16, saxion, 400, 12000, NP1 | NP2 | NP3 | NP4) {
  Cfg g; g.type = FIELD_SAXION; bool fold = c.chance(1, 3); geom(c, g, true, fold); int n = g.n, nb; double mul; int ask = drawBins(c, n, n, mul, nb); Bg B = bg(g, g.zi); double R = B.R, al = c.real(-M_PI, M_PI); int mk = c.range(0, 6); bool core = c.flip(); int what = c.range(1, 7) * (core ? 1 : 16); uint64_t ms = c.seed(); int dens = c.range(0, 10);
  Content km = drawContent(c, 0.1 * R, std::polar(R * c.real(0.9, 1.1), al)), kv = drawContent(c, c.logreal(0.1, 3) * R, 0); 
  c.say("%s folded=%d bins=%d spectra=%d mask=%s(%d) phase=%.3g", g.str().c_str(), fold, ask, what, MN[mk], dens, al); Fld f(g); Scalar *s = f.s; if (fold) f.fold(); f.poisonGhosts(); double sh = s->Saskia() * R; if (!(fabs(sh) < 100 * R)) { c.discarded = true; return; } Grid m = fillGrid(km, n, n, true, g.prec), v = fillGrid(kv, n, n, true, g.prec);
  for (auto &x : m.d) x = rndp(x + sh, g.prec); scatterM(f, m); scatterV(f, v);
  bool cut = mk == 3 || mk == 4, soft = mk > 4; auto hid = [&](size_t i) { return cut && (int)(mix(ms + i) % 10) < dens; }; auto wei = [&](size_t i) { return rndp(0.5 + 0.5 * hreal(ms + i), g.prec); };
  char *sd = (char *)s->sData(); size_t S = s->Surf(); for (size_t i = 0; i < s->Size(); i++) { size_t G_ = i + (size_t)f.z0() * S; sd[i] = (hid(G_) ? STRING_MASK : 0) | (mix(ms + G_ + 7) & 0x7f & ~(int)STRING_MASK); } if (mk > 2) s->setSD(SD_MASK);
  for (size_t i = 0; i < (size_t)s->eSize(); i++) f.putReal(s->m2Cpu(), i, NAN); if (soft) for (size_t i = 0; i < s->Size(); i++) f.putReal(s->m2half(), i, wei(i + (size_t)f.z0() * S));
  std::unique_ptr<SpecBin> b(specBin(c, f, ask)); { Quiet q; b->nRun(MASKS[mk], (nRunType)what); }
  size_t N = m.d.size(); double m2 = B.mA2 * R * R, dx = g.L / n, mul2 = 0; Vec K(N), Vn(N), Vl(N), D[3] = {Vec(N), Vec(N), Vec(N)}; std::vector<double> sk(N), sv(N), sD(N); bool tie = false; (void)mul2;
  const int E[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  for (int z = 0; z < n; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) { size_t i = ((size_t)z * n + y) * n + x; cd p = m.at(x, y, z) - sh, w = v.at(x, y, z); double a = std::abs(p), q = mk == 1 ? a / R : mk == 2 ? a * a / R / R : soft ? wei(i) : hid(i) ? 0 : 1, big = (std::abs(m.at(x, y, z)) + fabs(sh)) / a;
    K[i] = q * R * (w / p).imag(); sk[i] = R * std::abs(w / p) * big; double th = std::arg(p); Vn[i] = q * 2 * R * sin(th / 2); Vl[i] = q * R * th; sv[i] = R * M_PI * big; if (M_PI - fabs(th) < 1e-4) tie = true;
    for (int d = 0; d < 3; d++) { cd pp = m.at(x + E[d][0], y + E[d][1], z + E[d][2]) - sh, pm = m.at(x - E[d][0], y - E[d][1], z - E[d][2]) - sh; D[d][i] = q * (core ? R / (2 * dx) * ((pp - pm) / p).imag() : 2 * R / dx * ((pp - p) / (pp + p)).imag()); } sD[i] = 4 * R / dx * big; }
  auto one = [](int, int, int) { return 1.; }; auto mm = [&](int, int, int) { return m2; }; auto corr = [n](int k) { if (!k) return 1.; double x = M_PI * abs(k) / n; return pow(x / sin(x), 2); };
  if (what & (NRUN_K | NRUN_CK)) same(c, core ? "K" : "CK", b->data(SPECTRUM_KK), spectrum(g, K, sk, nb, mul, one));
  if (what & (NRUN_G | NRUN_CG)) { Spec t = spectrum(g, D[0], sD, nb, mul, [&](int x, int, int) { return corr(x); }); add(t, spectrum(g, D[1], sD, nb, mul, [&](int, int y, int) { return corr(y); })); add(t, spectrum(g, D[2], sD, nb, mul, [&](int, int, int z) { return corr(z); })); same(c, core ? "G" : "CG", b->data(SPECTRUM_GG), t); }
  if ((what & (NRUN_V | NRUN_CV)) && !tie) { if (core) same(c, "S", b->data(SPECTRUM_VVNL), spectrum(g, Vn, sv, nb, mul, mm)); same(c, core ? "V" : "CV", b->data(SPECTRUM_VV), spectrum(g, Vl, sv, nb, mul, mm)); }
  Grid gm = gatherM(f), gv = gatherV(f); for (size_t i = 0; i < N; i++) if (gm.d[i] != m.d[i] || gv.d[i] != v.d[i]) { c.fail("source", "the spectra changed the field at site %zu", i); break; }
  c.nontrivial = km.kind && kv.kind && (!cut || (dens > 0 && dens < 10)); c.label(MN[mk]); c.label(core ? "with core correction" : "plain"); }
LAW(C16, radial, 250, 9000, NP1 | NP2 | NP3 | NP4) {
  Cfg g; g.type = FIELD_SAXION; bool fold = c.chance(1, 3); geom(c, g, true, fold); int n = g.n, nb; double mul; int ask = drawBins(c, n, n, mul, nb); Bg B = bg(g, g.zi); double R = B.R; int mk = c.range(0, 4), what = c.range(1, 7); uint64_t ms = c.seed(); int dens = c.range(0, 10);
  Content km = drawContent(c, 0.3 * R, std::polar(R * c.real(0.9, 1.1), c.real(-M_PI, M_PI))), kv = drawContent(c, c.logreal(0.1, 3) * R, 0);
  c.say("%s folded=%d bins=%d spectra=%d mask=%s(%d)", g.str().c_str(), fold, ask, what, MN[mk], dens); Fld f(g); Scalar *s = f.s; if (fold) f.fold(); f.poisonGhosts(); double sh = s->Saskia() * R; if (!(fabs(sh) < 100 * R)) { c.discarded = true; return; } Grid m = fillGrid(km, n, n, true, g.prec), v = fillGrid(kv, n, n, true, g.prec); for (auto &x : m.d) x = rndp(x + sh, g.prec); scatterM(f, m); scatterV(f, v);
  bool cut = mk > 2; auto hid = [&](size_t i) { return cut && (int)(mix(ms + i) % 10) < dens; }; char *sd = (char *)s->sData(); size_t S = s->Surf(); for (size_t i = 0; i < s->Size(); i++) { size_t G_ = i + (size_t)f.z0() * S; sd[i] = (hid(G_) ? STRING_MASK : 0) | (mix(ms + G_ + 7) & 0x7f & ~(int)STRING_MASK); } if (cut) s->setSD(SD_MASK);
  std::unique_ptr<SpecBin> b(specBin(c, f, ask)); { Quiet q; b->nSRun(MASKS[mk], (nRunType)what); } size_t N = m.d.size(); Vec K(N), A(N); std::vector<double> sk(N), sa(N);
  for (size_t i = 0; i < N; i++) { cd p = m.d[i] - sh, w = v.d[i]; double a = std::abs(p), q = mk == 1 ? a / R : mk == 2 ? a * a / R / R : hid(i) ? 0 : 1, big = (std::abs(m.d[i]) + fabs(sh)) / a; K[i] = q * ((std::conj(p) * w).real() / a - a * B.Rp); A[i] = q * (a - R); sk[i] = (std::abs(w) + a * fabs(B.Rp)) * big * 2 * (1 + q); sa[i] = (a + R) * big * 2 * (1 + q); }
  double k0 = pow(2 * M_PI / g.L, 2), ms2 = s->SaxionMassSq() * R * R; if (what & NRUN_K) same(c, "KS", b->data(SPECTRUM_KK), spectrum(g, K, sk, nb, mul, [](int, int, int) { return 1.; }));
  if (what & NRUN_G) same(c, "GS", b->data(SPECTRUM_GG), spectrum(g, A, sa, nb, mul, [&](int x, int y, int z) { return k0 * (x * x + y * y + z * z); })); if (what & NRUN_V) same(c, "VS", b->data(SPECTRUM_VV), spectrum(g, A, sa, nb, mul, [&](int, int, int) { return ms2; }));
  Grid gm = gatherM(f), gv = gatherV(f); for (size_t i = 0; i < N; i++) if (gm.d[i] != m.d[i] || gv.d[i] != v.d[i]) { c.fail("source", "the spectra changed the field at site %zu", i); break; } c.nontrivial = km.kind && kv.kind && (!cut || (dens > 0 && dens < 10)); c.label(MN[mk]); }
LAW(C16, smooth, 300, 10000, NP1 | NP2 | NP3 | NP4) {
  Cfg g; g.type = c.pick<FieldType>({FIELD_SAXION, FIELD_AXION}); geom(c, g, c.flip(), false); int n = g.n, nz = g.nz, np = commSize(), lz = nz / np; Content e = drawContent(c, 0.6, 1.); int kind = c.range(0, 3), start = c.range(0, 3), times = c.range(1, 2); double len = c.logreal(0.02, 1) * g.L, k0 = 2 * M_PI / g.L; int nei = c.range(1, 4); if (kind == 3) { times = 1; start = 2; while (lz % nei || n % nei) nei--; }
  if (kind == 2) for (int k2 = 0; k2 < 3 * n * n; k2++) if (fabs(sqrt((double)k2) * k0 * len - 1) < 1e-4) { len *= 1.001; k2 = -1; }
  c.say("%s filter=%d length=%.4g sites=%d start=%d times=%d", g.str().c_str(), kind, len, nei, start, times); Fld f(g); Scalar *s = f.s; f.poisonGhosts(); Grid en = fillGrid(e, n, nz, false, g.prec); bool half = start == 1; putMap(f, half ? s->m2half() : s->m2Cpu(), [&](int x, int y, int z) { return en.at(x, y, z).real(); }); s->setM2(half ? M2_DIRTY : M2_ENERGY); s->setM2h(half ? M2_ENERGY : M2_DIRTY);
  std::unique_ptr<SpecBin> b(specBin(c, f, -1)); { Quiet q; if (start >= 2) b->pRun(); if (start == 3) { memmove(s->m2half(), s->m2Cpu(), s->eSize() * g.prec); s->setM2(M2_DIRTY); s->setM2h(M2_ENERGY_FFT); } if (kind == 3) b->filter(nei); else for (int i = 0; i < times; i++) { if (i) len /= 2; b->smoothFourier(len, (FilterIndex)kind); } }
  double x1 = k0 * len, N = (double)n * n * nz; Vec d = en.d; dft(d, n, nz, -1); double l2 = 0, worst = 1; for (auto &q : en.d) l2 += std::norm(q); for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) { double k2 = pow(sg(x, n), 2) + pow(sg(y, n), 2) + pow(sg(z, nz), 2), X = x1 * sqrt(k2), F = 1; switch (kind) { case 0: F = exp(-X * X / 2); break; case 1: F = X > 0 ? 3 * (sin(X) - X * cos(X)) / (X * X * X) : 1; if (X > 0) worst = std::max(worst, 3 / (X * X)); break; case 2: F = X > 1 ? 0 : 1; break; default: F = exp(-0.5 * M_PI * M_PI * nei * nei / (n * n) * k2); } d[((size_t)z * n + y) * n + x] *= F / N; } dft(d, n, nz, 1);
  double tol = 40 * g.eps() * worst * (sqrt(l2 / N) * log2(N) + 1); int row = kind == 3 ? n / nei : n + 2, mx = kind == 3 ? n / nei : n, mz = kind == 3 ? lz / nei : lz, st = kind == 3 ? nei : 1;
  for (int z = 0; z < mz; z++) for (int y = 0; y < mx; y++) for (int x = 0; x < mx; x++) { double got = f.real(s->m2Cpu(), ((size_t)z * mx + y) * row + x), w = d[((size_t)(z * st + f.z0()) * n + y * st) * n + x * st].real(); if (!(fabs(got - w) <= tol)) { c.fail("filtered", "filtered map at (%d,%d,%d) is %.9g, the filtered Fourier series gives %.9g (tolerance %.2g)", x, y, z, got, w, tol); x = y = z = 1 << 20; } }
  c.check(s->m2Status() == (kind == 3 ? M2_ENERGY_RED : M2_ENERGY_SMOOTH), "status", "m2 status %d after the filter", (int)s->m2Status()); c.nontrivial = e.kind != 0; const char *L[] = {"gauss", "tophat", "sharp k", "reduce"}; c.label(L[kind]); }
LAW(C16, padding, 200, 6000, NP1 | NP2) {
  Cfg g; g.type = c.pick<FieldType>({FIELD_SAXION, FIELD_AXION}); geom(c, g, c.flip(), false); int n = g.n, lz = g.nz / commSize(); uint64_t sd = c.seed(); PadIndex from = c.pick<PadIndex>({PFIELD_M2, PFIELD_M2H}), to = c.pick<PadIndex>({PFIELD_M2, PFIELD_M2H}), last = c.pick<PadIndex>({PFIELD_M2, PFIELD_M2H}); c.say("%s %d -> %d -> %d", g.str().c_str(), (int)from, (int)to, (int)last); Fld f(g); Scalar *s = f.s; std::unique_ptr<SpecBin> b(specBin(c, f, -1));
  auto at = [&](PadIndex p) { return p == PFIELD_M2 ? s->m2Cpu() : s->m2half(); }; size_t N = s->Size(); for (size_t i = 0; i < N; i++) f.putReal(at(from), i, hreal(sd + i)); { Quiet q; b->pad(from, to); }
  for (size_t i = 0; i < N; i++) if (f.real(at(to), i / n * (n + 2) + i % n) != rndp(hreal(sd + i), g.prec)) { c.fail("pad", "padding lost element %zu", i); break; } { Quiet q; b->unpad(to, last); } for (size_t i = 0; i < N; i++) if (f.real(at(last), i) != rndp(hreal(sd + i), g.prec)) { c.fail("unpad", "unpadding lost element %zu", i); break; } c.nontrivial = lz > 1; }
// the core correction is the average of a quantity of the phase over a Gaussian of 0.4 sites around a point where the field varies linearly
LAW(C16, core, 40, 800, NP1) {
  bool dp = c.flip(); int K = 24, nr = c.range(1, 2); double sum = 0; c.say("double=%d results=%d", dp, nr); int bad = 0;
  for (int t = 0; t < K; t++) { double sc = c.logreal(0.05, 20), a[3], b[3]; double A, B, e, cb, ma, mb; int tries = 0; do { for (int i = 0; i < 3; i++) { a[i] = sc * c.real(-1, 1); b[i] = sc * c.real(-1, 1); } ma = sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); mb = sqrt(b[0] * b[0] + b[1] * b[1] + b[2] * b[2]); cb = (a[0] * b[0] + a[1] * b[1] + a[2] * b[2]) / (ma * mb); e = ma < mb ? ma / mb : mb / ma; if (++tries > 20) { c.discarded = true; return; } } while (!(e > 0.25 && fabs(cb) < 0.75));
    double mx = std::max(ma, mb), re = mx * c.real(-1, 1) * 3, im = mx * c.real(-1, 1) * 3, vr = c.real(-1, 1), vi = c.real(-1, 1), wr = c.real(-1, 1), wi = c.real(-1, 1); A = re; B = im; if (hypot(A, B) < 0.2 * mx) A += 0.4 * mx; if (t == 0 && c.chance(1, 6)) { b[0] = -a[1]; b[1] = a[0]; b[2] = a[2]; mb = ma; }
    double r0, r1; if (dp) { double da[10] = {A, B, vr, vi, a[0], a[1], a[2], b[0], b[1], b[2]}, r[2] = {wr, wi}; stringcorre((void *)da, (void *)r, FIELD_DOUBLE, nr); r0 = r[0]; r1 = r[1]; } else { float da[10] = {(float)A, (float)B, (float)vr, (float)vi, (float)a[0], (float)a[1], (float)a[2], (float)b[0], (float)b[1], (float)b[2]}, r[2] = {(float)wr, (float)wi}; stringcorre((void *)da, (void *)r, FIELD_SINGLE, nr); r0 = r[0]; r1 = r[1]; }
    // average of phi/|phi|^2 with phi Gaussian: mean (A,B), covariance of the two components from the gradients
    double saa = ma * ma, sbb = mb * mb, sab = a[0] * b[0] + a[1] * b[1] + a[2] * b[2], det = saa * sbb - sab * sab, h = mx / 25, P = 0, Q = 0; for (int i = -160; i < 160; i++) for (int j = -160; j < 160; j++) { double x = (i + 0.5) * h, y = (j + 0.5) * h, u = x - A, w = y - B, ch = (sbb * u * u - 2 * sab * u * w + saa * w * w) / det; if (ch > 60) continue; double W = exp(-ch / 2), r2 = x * x + y * y; P += W * x / r2; Q += W * y / r2; } double nn = h * h / (2 * M_PI * sqrt(det)); P *= nn; Q *= nn;
    double mg = hypot(P, Q), w0 = P * vi - Q * vr, w1 = P * wi - Q * wr, v0 = hypot(vr, vi), er = fabs(r0 - w0) / (mg * v0 + 1e-30); if (nr == 2) er = std::max(er, fabs(r1 - w1) / (mg * hypot(wr, wi) + 1e-30)); sum += er; if (!(er < 0.5)) { c.fail("core", "core correction at field (%.4g,%.4g) with gradients (%.4g,%.4g,%.4g),(%.4g,%.4g,%.4g): got %.6g and %.6g, the Gaussian average is %.6g and %.6g (relative error %.3g)", A, B, a[0], a[1], a[2], b[0], b[1], b[2], r0, nr == 2 ? r1 : 0, w0, nr == 2 ? w1 : 0, er); bad = 1; } }
  c.check(bad || sum / K < 0.04, "core-mean", "mean relative error of the core correction over %d points is %.4g", K, sum / K); c.nontrivial = true; }
