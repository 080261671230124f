// C11: Fourier transforms against a direct DFT of the whole lattice; round trips; layouts
#include "ref.h"
#include "fft/fftCode.h"
#include "scalar/fourier.h"
#include <mpi.h>
using namespace ref; using namespace AxionFFT;
static std::vector<double> all(const Fld &f, const void *p, size_t reals) { std::vector<double> l(reals), a(reals * commSize()); for (size_t i = 0; i < reals; i++) l[i] = f.real(p, i); MPI_Allgather(l.data(), reals, MPI_DOUBLE, a.data(), reals, MPI_DOUBLE, MPI_COMM_WORLD); return a; }
// separable direct DFT: d[z][y][x], sign -1 is the forward transform
static void dft(std::vector<cd> &d, int n, int nz, int sign) {
  int dim[3] = {n, n, nz}; size_t st[3] = {1, (size_t)n, (size_t)n * n};
  for (int a = 0; a < 3; a++) { int N = dim[a]; std::vector<cd> w(N), t(N); for (int i = 0; i < N; i++) w[i] = std::polar(1., sign * 2 * M_PI * i / N);
    for (size_t s = 0; s < d.size(); s++) { if (s / st[a] % N) continue; for (int k = 0; k < N; k++) { cd q = 0; for (int i = 0; i < N; i++) q += d[s + i * st[a]] * w[(size_t)i * k % N]; t[k] = q; } for (int k = 0; k < N; k++) d[s + k * st[a]] = t[k]; } } }
struct Kind { FFTtype t; const char *nm; bool real; int from, to, bfrom, bto; bool transposed; };   // buffers: 0 m interior 1 v 2 m2 3 m2half 4 m2Start 5 m (with ghosts)
static const Kind K[] = {
  {FFT_CtoC_MtoM, "MtoM", false, 0, 0, 0, 0, true}, {FFT_CtoC_VtoV, "VtoV", false, 1, 1, 1, 1, true}, {FFT_CtoC_M2toM2, "M2toM2", false, 2, 2, 2, 2, true}, {FFT_CtoC_MtoM2, "MtoM2", false, 0, 2, 2, 0, false}, {FFT_CtoC_M2toM, "M2toM", false, 2, 0, 0, 2, true},
  {FFT_CtoC_VtoM2, "VtoM2", false, 1, 2, 2, 1, false}, {FFT_RDSX_V, "RDSX_V", false, 1, 2, 2, 2, true}, {FFT_SPSX, "SPSX", false, 0, 2, 2, 2, true}, {FFT_RDSX_M, "RDSX_M", false, 0, 2, 2, 2, true}, {FFT_PSPEC_AX, "PSPEC_AX", true, 2, 2, 2, 2, true}, {FFT_SPAX, "SPAX", true, 2, 2, 2, 2, true},
  {FFT_RHO_SX, "RHO_SX", true, 3, 3, 3, 3, true}, {FFT_RtoC_M2StoM2S, "M2StoM2S", true, 4, 4, 4, 4, true}, {FFT_RtoC_MtoM_WKB, "MtoM_WKB", true, 5, 5, 5, 5, true}, {FFT_RtoC_VtoV_WKB, "VtoV_WKB", true, 1, 1, 1, 1, true}, {FFT_RtoC_M2toM2_WKB, "M2toM2_WKB", true, 2, 2, 2, 2, true}, {FFT_RtoC_M2toM, "RM2toM", true, 2, 5, 5, 2, true}, {FFT_RtoC_M2toV, "RM2toV", true, 2, 1, 1, 2, true}};
static void *buf(Scalar *s, int b) { switch (b) { case 0: return s->mStart(); case 1: return s->vCpu(); case 2: return s->m2Cpu(); case 3: return s->m2half(); case 4: return s->m2Start(); default: return s->mCpu(); } }
static void geom(Case &c, Cfg &g) {
  int np = commSize(); g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); g.Ng = c.pick<int>({1, 2, 1, 3}); do g.n = 2 * c.range(4, 10); while (0); while (g.n % np || (g.n * g.n * 4) % 32) g.n += 2; int mx = std::min(10, g.n / 1); g.nz = np * c.range(std::max(g.Ng, np == 1 ? 2 : 1), std::max(g.Ng, mx / np + 1)); if (g.nz / np > g.n) g.nz = np * g.n; }
LAW(C11, plans, 1000, 26000, NP1 | NP2 | NP3 | NP4) {
  int np = commSize(); Cfg g; geom(c, g); const Kind &k = K[c.range(0, 17)]; int redo = c.range(1, 2); bool axion = k.real && k.t != FFT_RHO_SX; g.type = axion ? FIELD_AXION : FIELD_SAXION; int n = g.n, nz = g.nz, lz = nz / np, ly = n / np; bool own = c.flip(); uint64_t sd = c.seed(); int sparse = c.range(0, 2);
  c.say("%s plan=%s own=%d times=%d sparse=%d", g.str().c_str(), k.nm, own, redo, sparse); Fld f(g); Scalar *s = f.s; int r = commRank();
  std::string name = "verif"; if (!own && k.t == FFT_PSPEC_AX) name = "pSpecAx"; else if (!own && k.t == FFT_SPSX) name = "SpSx"; else if (!own && k.t == FFT_RDSX_V) name = "RdSxV"; else initPlan(s, k.t, FFT_FWDBCK, name);
  auto &plan = fetchPlan(name); if (!plan.PlanFwd() || !plan.PlanBack()) { c.fail("no-plan", "plan %s could not be created", name.c_str()); return; }
  int row = k.real ? n + 2 : 2 * n; size_t reals = (size_t)lz * n * row, kreals = (size_t)ly * nz * (k.real ? n / 2 + 1 : n) * 2; double eps = g.eps(), N = (double)n * n * nz;
  for (int it = 0; it < redo; it++) {
    std::vector<cd> x((size_t)n * n * nz); double nrm = 0; for (size_t i = 0; i < x.size(); i++) { uint64_t h = mix(sd + 99991 * it + i); bool on = sparse == 0 || (sparse == 1 ? h % x.size() < 3 : i % n == h % n); x[i] = on ? rndp(cd(hreal(h), k.real ? 0 : hreal(h + 1)), g.prec) : 0; nrm += std::norm(x[i]); } nrm = sqrt(nrm) + 1e-30;
    void *p = buf(s, k.from); for (int z = 0; z < lz; z++) for (int y = 0; y < n; y++) for (int xx = 0; xx < n; xx++) { cd q = x[((size_t)(r * lz + z) * n + y) * n + xx]; size_t o = ((size_t)z * n + y) * row; if (k.real) f.putReal(p, o + xx, q.real()); else { f.putReal(p, o + 2 * xx, q.real()); f.putReal(p, o + 2 * xx + 1, q.imag()); } }
    { Quiet q; plan.run(FFT_FWD); } auto F = x; dft(F, n, nz, -1); auto got = all(f, buf(s, k.to), kreals); double tol = 24 * eps * nrm * log2(N); int nk = k.real ? n / 2 + 1 : n;
    for (int ky = 0; ky < n; ky++) for (int kz = 0; kz < nz; kz++) for (int kx = 0; kx < nk; kx++) { size_t o = k.transposed ? (size_t)(ky / ly) * kreals + 2 * (((size_t)(ky % ly) * nz + kz) * nk + kx) : (size_t)(kz / lz) * reals + 2 * (((size_t)(kz % lz) * n + ky) * nk + kx); cd w = F[((size_t)kz * n + ky) * n + kx];
      if (!(std::abs(cd(got[o], got[o + 1]) - w) <= tol)) { c.fail("forward", "mode (%d,%d,%d) is (%.9g,%.9g), direct sum (%.9g,%.9g), tolerance %.3g", kx, ky, kz, got[o], got[o + 1], w.real(), w.imag(), tol); return; } }
    // backward: from the forward result where the plan pair allows it
    if (k.bfrom != k.to) { void *a = buf(s, k.to), *b = buf(s, k.bfrom); for (size_t i = 0; i < kreals; i++) f.putReal(b, i, f.real(a, i)); }
    { Quiet q; plan.run(FFT_BCK); } auto bk = all(f, buf(s, k.bto), reals); double tb = 24 * eps * nrm * log2(N) * sqrt(N) ; for (size_t i = 0; i < x.size(); i++) { int xx = i % n, y = i / n % n, z = i / n / n; size_t o = (size_t)(z / lz) * reals + ((size_t)(z % lz) * n + y) * row + (k.real ? xx : 2 * xx); cd q = k.real ? cd(bk[o], 0) : cd(bk[o], bk[o + 1]);
      if (!(std::abs(q / N - x[i]) <= tb / N + 16 * eps * nrm / sqrt(N) * log2(N))) { c.fail("backward", "site (%d,%d,%d): (%.9g,%.9g) after forward and backward transforms / N, was (%.9g,%.9g)", xx, y, z, q.real() / N, q.imag() / N, x[i].real(), x[i].imag()); return; } } }
  c.nontrivial = sparse < 2; c.label(k.nm);
}
// the whole-field transforms used by the spectral propagators, and back
LAW(C11, whole_field, 500, 12000, NP1 | NP2 | NP3) {
  int np = commSize(); Cfg g; geom(c, g); g.type = c.pick<FieldType>({FIELD_SAXION, FIELD_AXION}); if (g.type == FIELD_SAXION && g.n % 8) g.n += 8 - g.n % 8; while (g.n % 8 || g.n % np) g.n += 2; bool cx = g.type == FIELD_SAXION; bool fold = c.flip(); int which = c.range(1, 3), back = c.range(0, 1); int n = g.n, nz = g.nz, ly = n / np; Content km = drawContent(c, 1, cd(0.3, 0.1)), kv = drawContent(c, 2, 0);
  c.say("%s fields=%d folded=%d back=%d", g.str().c_str(), which, fold, back); Fld f(g); Scalar *s = f.s;
  if (cx) { initPlan(s, FFT_CtoC_MtoM, FFT_FWDBCK, "C2CM2M"); initPlan(s, FFT_CtoC_VtoV, FFT_FWDBCK, "C2CV2V"); initPlan(s, FFT_CtoC_M2toM2, FFT_FWDBCK, "C2CM22M2"); initPlan(s, FFT_CtoC_M2toM, FFT_FWDBCK, "C2CM22M"); } else { initPlan(s, FFT_RtoC_M2toM, FFT_FWDBCK, "R2CM22M"); initPlan(s, FFT_RtoC_M2toV, FFT_FWDBCK, "R2CM22V"); }
  if (fold) f.fold(); Grid m = fillGrid(km, n, nz, cx, g.prec), v = fillGrid(kv, n, nz, cx, g.prec); scatterM(f, m); scatterV(f, v); FieldIndex fi = which == 3 ? FIELD_MV : which == 1 ? FIELD_M : FIELD_V; double eps = g.eps(), N = (double)n * n * nz; int nk = cx ? n : n / 2 + 1; size_t kreals = (size_t)ly * nz * nk * 2;
  FTfield ft(s); { Quiet q; ft(fi, FFT_FWD); } c.check(s->MMomSpace() == !!(which & 1) && s->VMomSpace() == !!(which & 2), "flags", "momentum space flags m %d v %d", s->MMomSpace(), s->VMomSpace()); c.check(!s->Folded(), "folded", "still folded in momentum space");
  for (int a = 0; a < 2; a++) { if (!(which & (1 << a))) continue; auto &x = a ? v : m; auto F = x.d; double nrm = 0; for (auto q : F) nrm += std::norm(q); nrm = sqrt(nrm); dft(F, n, nz, -1); auto got = all(f, a ? s->vCpu() : cx ? s->mStart() : s->mCpu(), kreals); double tol = 16 * eps * (nrm + 1e-30) * log2(N) / N;
    for (int ky = 0; ky < n; ky++) for (int kz = 0; kz < nz; kz++) for (int kx = 0; kx < nk; kx++) { size_t o = (size_t)(ky / ly) * kreals + 2 * (((size_t)(ky % ly) * nz + kz) * nk + kx); cd w = F[((size_t)kz * n + ky) * n + kx] / N; if (!(std::abs(cd(got[o], got[o + 1]) - w) <= tol + 60 * eps * std::abs(w))) { c.fail("forward", "%s mode (%d,%d,%d) is (%.9g,%.9g), direct sum / N (%.9g,%.9g)", a ? "v" : "m", kx, ky, kz, got[o], got[o + 1], w.real(), w.imag()); return; } } }
  { Quiet q; ft(fi, FFT_BCK); } c.check(!s->MMomSpace() && !s->VMomSpace(), "flags", "momentum space flags left set"); Grid gm = gatherM(f), gv = gatherV(f); double sm = 0, sv = 0; for (auto q : m.d) sm = std::max(sm, std::abs(q)); for (auto q : v.d) sv = std::max(sv, std::abs(q));
  for (size_t i = 0; i < m.d.size(); i++) { if (!(std::abs(gm.d[i] - m.d[i]) <= 40 * eps * log2(N) * sm)) { c.fail("back-m", "site %zu of m is (%.9g,%.9g) after there and back, was (%.9g,%.9g)", i, gm.d[i].real(), gm.d[i].imag(), m.d[i].real(), m.d[i].imag()); break; } if (!(std::abs(gv.d[i] - v.d[i]) <= 40 * eps * log2(N) * sv)) { c.fail("back-v", "site %zu of v is (%.9g,%.9g) after there and back, was (%.9g,%.9g)", i, gv.d[i].real(), gv.d[i].imag(), v.d[i].real(), v.d[i].imag()); break; } }
  c.nontrivial = km.kind != 0 && kv.kind != 0; c.label(cx ? "complex" : "real"); c.label(fi == FIELD_MV ? "both" : "one");
}
