// C23: measurement files against the field that was measured
#include "spec.h"
#include "strfield.h"
#include "h5.h"
#include "io/readWrite.h"
#include "energy/energy.h"
#include "fft/fftCode.h"
#include "scalar/fourier.h"
#include "meas/measa.h"
#include <mpi.h>
#include <omp.h>
#include <math.h>
extern char outDir[], outName[]; extern int dump, nSteps;
namespace {
std::string measFile(int i) { char b[64]; snprintf(b, sizeof b, ".m.%05d", i); return std::string(outDir) + "/" + outName + b; }
std::string confFile(int i) { char b[64]; snprintf(b, sizeof b, ".%05d", i); return std::string(outDir) + "/" + outName + b; }
struct Sel { int meas, nrt, maty, idx, slice, redmap, nbins, step, mask; double wall; std::vector<double> lat; };   // lat: mask radii in lattice units
Sel drawSel(Case &c, const Cfg &g, bool sax) { Sel s; static const int bits[] = {MEAS_BINTHETA, MEAS_BINRHO, MEAS_BINLOGTHETA2, MEAS_BINDELTA, MEAS_STRING, MEAS_STRINGMAP, MEAS_ENERGY, MEAS_ENERGY3DMAP, MEAS_3DMAP, MEAS_PSP_A, MEAS_NSP_A, MEAS_NSP_S, MEAS_NNSPEC, MEAS_REDENE3DMAP, MEAS_MULTICON, MEAS_STRINGCOO};
  unsigned pick = c.range(0, 65535); if (c.chance(1, 3)) pick &= c.range(0, 65535); if (!c.chance(1, 6)) pick &= ~(3u << 13); if (!c.chance(1, 4)) pick &= ~(1u << 15); if (!c.chance(1, 3)) pick &= ~(1u << 8); s.meas = 0; for (int i = 0; i < 16; i++) if (pick >> i & 1) s.meas |= bits[i];
  s.nrt = NRUN_NONE; static const int runs[] = {NRUN_K, NRUN_G, NRUN_V, NRUN_CK, NRUN_CG, NRUN_CV}; unsigned r = c.range(1, 63); for (int i = 0; i < 6; i++) if (r >> i & 1) s.nrt |= runs[i]; static const int maps[] = {MAPT_XYMV, MAPT_YZMV, MAPT_XYE, MAPT_XYPE, MAPT_XYPE2}; unsigned w = c.range(0, 31); if (c.flip()) w = 0; if ((w & 24) == 24) w &= ~(c.flip() ? 8u : 16u); s.maty = 0; for (int i = 0; i < 5; i++) if (w >> i & 1) s.maty |= maps[i];
  s.idx = c.chance(1, 4) ? 0 : c.range(1, 99999); s.slice = c.range(0, g.nz - 1); s.redmap = 0; s.nbins = -1; s.step = c.range(0, 1 << 30); s.wall = c.real(0, 1e6); s.mask = SPMASK_FLAT; if (c.chance(1, 3)) { int l = g.nz / commSize(); static const int ms[] = {SPMASK_VIL, SPMASK_VIL2, SPMASK_REDO, SPMASK_GAUS, SPMASK_DIFF, SPMASK_BALL}, ma[] = {SPMASK_AXIT, SPMASK_AXIT2, SPMASK_AXITV}; int k = sax ? 6 : 3; unsigned q = c.range(1, (1 << k) - 1) & c.range(1, (1 << k) - 1); for (int i = 0; i < k; i++) if (q >> i & 1) s.mask |= (sax ? ms : ma)[i]; if (l >= 3) { s.lat.push_back(c.real(1, std::min(l - 1, 4))); if (c.chance(1, 3)) s.lat.push_back(s.lat[0] + 0.3); } else s.mask = SPMASK_FLAT; s.meas &= ~MEAS_MASK; } return s; }
struct Hist { std::vector<double> v; };
// a histogram of 3000 bins stored with its range against the data themselves
void histogram(Case &c, const H5 &h, const char *nm, const std::vector<double> &d, double rel, double off) {
  std::string p = std::string("/bins/") + nm; double lo = INFINITY, hi = -INFINITY; size_t fin = 0; for (double x : d) if (std::isfinite(x)) { lo = std::min(lo, x); hi = std::max(hi, x); fin++; } if (!fin) return; double sc = std::max(fabs(lo), fabs(hi)), tol = rel * (sc + off); double MX = h.num(p, "Maximum"), MN = h.num(p, "Minimum");
  if (!(fabs(MX - hi) <= tol && fabs(MN - lo) <= tol)) { c.fail(nm, "%s spans %.9g..%.9g, the data %.9g..%.9g", p.c_str(), MN, MX, lo, hi); return; } auto b = h.data(p + "/data"); size_t N = b.size(); if (N != 3000 || h.num(p, "Size") != 3000) { c.fail(nm, "%s has %zu bins and says %g", p.c_str(), N, h.num(p, "Size")); return; } if (MX - MN < 1e-9 + 4 * tol) return;
  double step = (MX - MN) / (N - 1), base = MN - step / 2; std::vector<double> sure(N, 0), may(N, 0); double fz = tol / step + 1e-9 * N; for (double x : d) { if (!std::isfinite(x)) continue; double q = (x - base) / step; long a = floor(q - fz), e = floor(q + fz); a = std::max(a, 0l); e = std::min(e, (long)N - 1); if (e - a > 300) { c.label("unresolved"); return; } if (a == e) sure[a]++; else for (long k = a; k <= e; k++) may[k]++; }
  double u = 1. / (d.size() * step), sum = 0; for (size_t k = 0; k < N; k++) { double cnt = b[k] / u; sum += cnt; if (!(cnt >= sure[k] - 1e-6 * (1 + sure[k]) && cnt <= sure[k] + may[k] + 1e-6 * (1 + sure[k]))) { c.fail(nm, "bin %zu of %s holds %.9g values, %.0f to %.0f of the data lie in it", k, p.c_str(), cnt, sure[k], sure[k] + may[k]); return; } } if (!(fabs(sum - fin) <= 1e-6 * fin)) c.fail(nm, "%s holds %.9g of %zu values", p.c_str(), sum, fin); }
void close(Case &c, const char *nm, const std::vector<double> &got, const std::vector<double> &want, double rel) { if (got.size() != want.size()) { c.fail(nm, "%s has %zu elements, measured %zu", nm, got.size(), want.size()); return; } double sc = 0; for (double x : want) sc = std::max(sc, fabs(x)); for (size_t i = 0; i < got.size(); i++) if (!(fabs(got[i] - want[i]) <= rel * sc) && !(std::isnan(got[i]) && std::isnan(want[i]))) { c.fail(nm, "%s element %zu is %.10g, measured %.10g", nm, i, got[i], want[i]); return; } }
// the bare field at one moment, everything measured by hand, then the file
void one(Case &c, Fld &f, const Cfg &g, const Grid &m, const Grid &v, const Sel &sl) {
  Scalar *s = f.s; bool sax = g.type == FIELD_SAXION; int n = g.n, nz = g.nz, lz = s->Depth(), np = commSize(); size_t S = (size_t)n * n, V = S * nz; double R = *s->RV(), sh = sax ? R * s->Saskia() : 0, rel = g.dp() ? 1e-9 : 2e-4;
  double u = sax ? s->Msa() : 1; std::vector<double> tab; for (double r : sl.lat) tab.push_back(std::max(0.01, round(100 * r * u) / 100)); if (tab.size() == 2 && !(tab[1] - tab[0] > 0.0099)) tab.pop_back(); size_t nr = tab.size(); if (tab.empty()) tab.push_back(0);
  if (sl.mask > 1) { if (!sax) memset(s->sData(), 0, s->Size()); }
  MeasInfo mi; mi.index = sl.idx; mi.sliceprint = sl.slice; mi.idxprint = 0; mi.measdata = (MeasureType)sl.meas; mi.mask = (SpectrumMaskType)sl.mask; mi.rmask = 0; if (sl.lat.size()) mi.rmask_tab = tab; mi.nrt = (nRunType)sl.nrt; mi.nbinsspec = -1; mi.maty = (SliceType)sl.maty; mi.i_rmask = nr; mi.redmap = sl.redmap; mi.strmeas = STRMEAS_STRING; mi.measCPU = true; mi.cTimesec = sl.wall; mi.propstep = sl.step; mi.cummask = 0; mi.printconf = (PrintConf)0; mi.maskenergyonly = false;
  MeasData md; f.poisonGhosts(); { Quiet q; md = Measureme(s, mi); }
  { Grid a = gatherM(f), b = gatherV(f); for (size_t i = 0; i < V; i++) if (!(a.d[i] == m.d[i] && b.d[i] == v.d[i])) { c.fail("field", "measuring changed the field at site %zu", i); break; } }
  // what the library measures, called directly afterwards, so that the measured object carries only the history of the files before
  std::vector<double> e(64, 0), map((size_t)S * lz), all; std::vector<double> sP, sK[3], sC[3], sS[3], nm, ak; StringData sd{}; { Quiet q; s->setM2(M2_DIRTY); s->setM2h(M2_DIRTY); energy(s, e.data(), EN_MAP, sh); for (size_t i = 0; i < map.size(); i++) map[i] = f.real(s->m2Cpu(), i);
    MeasInfo mi; mi.nbinsspec = -1; SpecBin b(s, false, mi); b.pRun(); auto get = [&](SpectrumType t) { return std::vector<double>(b.data(t), b.data(t) + b.PowMax()); }; sP = get(SPECTRUM_P); if (sl.nrt & NRUN_KGV) { b.nRun(SPMASK_FLAT, (nRunType)(sl.nrt & NRUN_KGV)); sK[0] = get(SPECTRUM_KK); sK[1] = get(SPECTRUM_GG); sK[2] = get(SPECTRUM_VV); } int rc = sl.nrt & (NRUN_CK | NRUN_CG | NRUN_CV); if (rc && (sl.meas & MEAS_NSP_A)) { b.nRun(SPMASK_FLAT, (nRunType)rc); sC[0] = get(SPECTRUM_KK); sC[1] = get(SPECTRUM_GG); sC[2] = get(SPECTRUM_VV); } if (sax && (sl.nrt & NRUN_KGV) && (sl.meas & MEAS_NSP_S)) { b.nSRun(SPMASK_FLAT, (nRunType)(sl.nrt & NRUN_KGV)); sS[0] = get(SPECTRUM_KK); sS[1] = get(SPECTRUM_GG); sS[2] = get(SPECTRUM_VV); }
    b.nmodRun(); nm = get(SPECTRUM_NN); b.avekRun(); ak = get(SPECTRUM_AK); }
  // masked spectra: label, data
  struct MS { std::string nm; std::vector<double> d; }; std::vector<MS> msk; std::vector<double> scratch; 
  if (sl.mask > 1 && sax && (sl.meas & MEAS_NSP_A) && (sl.nrt & NRUN_KGV)) { static const char *L[] = {"Vi", "Vi2", "Red", "Gau", "Dif", "Bal"}; static const SpectrumMaskType B[] = {SPMASK_VIL, SPMASK_VIL2, SPMASK_REDO, SPMASK_GAUS, SPMASK_DIFF, SPMASK_BALL}; for (int k = 0; k < 6; k++) if (sl.mask & B[k]) for (double r : tab) { Quiet q; char b[64]; if (k < 2) strcpy(b, L[k]); else snprintf(b, sizeof b, "%s_%.2f", L[k], r); MeasInfo mi; mi.nbinsspec = -1; if (!sax) memset(s->sData(), 0, s->Size()); scratch.assign(64, 0); energy(s, scratch.data(), EN_MAP, sh); strings(s); SpecBin sb(s, false, mi); auto get = [&](SpectrumType t) { return std::vector<double>(sb.data(t), sb.data(t) + sb.PowMax()); }; sb.masker(r / u, B[k], M2_MASK, 0); msk.push_back({std::string("/mSpectrum/W_") + b, get(SPECTRUM_P)}); sb.nRun(B[k], (nRunType)(sl.nrt & NRUN_KGV)); if (sl.nrt & NRUN_K) msk.push_back({std::string("/eSpectrum/sK_") + b, get(SPECTRUM_KK)}); if (sl.nrt & NRUN_G) msk.push_back({std::string("/eSpectrum/sG_") + b, get(SPECTRUM_GG)}); if ((sl.nrt & NRUN_V) && s->AxionMassSq() > 0) msk.push_back({std::string("/eSpectrum/sV_") + b, get(SPECTRUM_VV)}); if (k < 2) break; } }
  if (sl.mask > 1 && !sax && (sl.meas & (MEAS_PSP_A | MEAS_REDENE3DMAP | MEAS_MULTICON))) { static const char *L[] = {"sPmasked", "sPmasked2", "sPmaskedV"}; static const SpectrumMaskType B[] = {SPMASK_AXIT, SPMASK_AXIT2, SPMASK_AXITV}; for (int k = 0; k < 3; k++) if (sl.mask & B[k]) for (double r : tab) { Quiet q; char b[64]; if (k == 2) strcpy(b, L[k]); else snprintf(b, sizeof b, "%s_%.2f", L[k], r); MeasInfo mi; mi.nbinsspec = -1; if (!sax) memset(s->sData(), 0, s->Size()); scratch.assign(64, 0); energy(s, scratch.data(), EN_MAP, sh); SpecBin sb(s, false, mi); sb.masker(r, B[k], M2_ENERGY, 0); msk.push_back({std::string("/pSpectrum/") + b, std::vector<double>(sb.data(SPECTRUM_P), sb.data(SPECTRUM_P) + sb.PowMax())}); if (k == 2) break; } }
  all.resize(V); MPI_Allgather(map.data(), map.size(), MPI_DOUBLE, all.data(), map.size(), MPI_DOUBLE, MPI_COMM_WORLD); double eA = 0; for (int i = 0; i < 5; i++) eA += e[i];
  strf::Meas st; if (sax) { for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) { auto p = strf::plaq(m, x, y, z, g.dp() ? 1e-9 : 2e-5); for (int k = 0; k < 3; k++) if (p.w[k] == 9) st.amb++; else if (p.w[k]) st.n++; } }
  commSync(); int M = sl.meas & ~MEAS_3DMAP; bool need = M & MEAS_NEEDENERGYM2, maps = sl.maty & (MAPT_XYE | MAPT_XYPE | MAPT_XYPE2);
  if (commRank() == 0) { { H5 h(confFile(sl.idx)); c.check(h.ok() == !!(sl.meas & MEAS_3DMAP), "config", "configuration file %s", h.ok() ? "written unasked" : "missing"); } H5 h(measFile(sl.idx));
    if (h.ok() != (M != 0)) { c.fail("file", "measurement file %s", h.ok() ? "written although nothing is measured" : "missing"); } else if (M) {
      auto num = [&](const char *o, const char *a, double w, double r = 0) { double q = h.num(o, a); if (!(fabs(q - w) <= r * fabs(w)) && std::isfinite(w)) c.fail("attribute", "attribute %s of %s is %.17g, expected %.17g", a, o, q, w); }; auto str = [&](const char *o, const char *a, const char *w) { auto q = h.str(o, a); if (q != w) c.fail("attribute", "attribute %s of %s is '%s', expected '%s'", a, o, q.c_str(), w); }; auto iff = [&](const char *p, bool w) { bool q = h.has(p); c.check(q == w, "selection", "%s is %s", p, q ? "there although it was not asked for" : "missing although it was asked for"); return q && w; };
      str("/", "Field type", sax ? "Saxion" : "Axion"); str("/", "Precision", g.dp() ? "Double" : "Single"); num("/", "Size", n); num("/", "Depth", nz); num("/", "Physical size", g.L); num("/", "z", *s->zV()); num("/", "R", R); num("/", "Axion mass", s->AxionMass()); num("/", "Saxion mass", sqrt(s->SaxionMassSq())); num("/", "msa", s->Msa()); num("/", "Wall time [s]", sl.wall); num("/", "Prop step #", sl.step); num("/", "zInitial", zInit); num("/", "zFinal", zFinl); num("/", "nSteps", nSteps); num("/", "Current step", (double)(int)((unsigned)dump * (unsigned)sl.idx));
      const char *p = "/potential"; str(p, "Lambda type", g.ltype == LAMBDA_Z2 ? "z2" : "Fixed"); num(p, "Lambda", g.lambda); num(p, "Lambda Z2 exponent", g.lz2e); num(p, "LambdaP", s->LambdaP()); num(p, "nQcd", g.nqcd); num(p, "nQcd2", g.nqcdr); num(p, "Gamma", g.gamma); num(p, "Shift", s->Saskia()); num(p, "Indi3", g.indi3); num(p, "z Threshold", g.zth); num(p, "z Restore", g.zrs); str(p, "VQcd type", (g.pot & V_QCD) == V_QCD2 ? "VQcd N = 2" : "VQcd 1"); str(p, "VPQ type", (g.pot & V_PQ) == V_PQ2 ? "VPQ 2" : "VPQ 1");
      // energies
      if ((M & MEAS_NEEDENERGY) || maps) { static const char *T[] = {"Axion Gr X", "Axion Gr Y", "Axion Gr Z", "Axion Potential", "Axion Kinetic"}; static const int TI[] = {TH_GRX, TH_GRY, TH_GRZ, TH_POT, TH_KIN}; static const char *Q[] = {"Saxion Gr X", "Saxion Gr Y", "Saxion Gr Z", "Saxion Potential", "Saxion Kinetic", "Saxion vev"}; static const int QI[] = {RH_GRX, RH_GRY, RH_GRZ, RH_POT, RH_KIN, RH_RHO}; double sum = 1e-280; for (int i = 0; i < (sax ? 10 : 5); i++) sum += fabs(e[i]); auto en = [&](const char *a, double w) { double q = h.num("/energy", a); if (!(fabs(q - w) <= (g.dp() ? 1e-11 : 1e-6) * sum)) c.fail("energy", "%s in the file is %.12g, measured %.12g", a, q, w); }; for (int i = 0; i < 5; i++) en(T[i], e[TI[i]]); if (sax) for (int i = 0; i < 6; i++) en(Q[i], e[QI[i]]); }
      else c.check(!h.hasAttr("/energy", "Axion Kinetic"), "selection", "energies were written unasked");
      if (iff("/energy/density/theta", M & MEAS_ENERGY3DMAP)) { auto d = h.data("/energy/density/theta"); close(c, "density", d, all, g.dp() ? 1e-12 : 1e-6); }
      if (iff("/pSpectrum/sP", M & (MEAS_PSP_A | MEAS_REDENE3DMAP | MEAS_MULTICON))) close(c, "sP", h.data("/pSpectrum/sP/data"), sP, rel);
      bool nsp = M & (MEAS_NSP_A | MEAS_NSP_S | MEAS_NNSPEC), mass = s->AxionMassSq() > 0; static const char *SK[] = {"sK_0", "sG_0", "sV_0"}; static const char *SC[] = {"sCK_0", "sCG_0", "sCV_0"}; static const char *SS[] = {"sKS_0", "sGS_0", "sVS_0"}; static const int RN[] = {NRUN_K, NRUN_G, NRUN_V}, RC[] = {NRUN_CK, NRUN_CG, NRUN_CV};
      for (int i = 0; i < 3; i++) { bool mm = i < 2 || mass; std::string b = "/eSpectrum/"; if (M & MEAS_NSP_A) { if (iff((b + SK[i]).c_str(), (sl.nrt & RN[i]) && mm)) close(c, SK[i], h.data(b + SK[i] + "/data"), sK[i], rel); if (iff((b + SC[i]).c_str(), (sl.nrt & RC[i]) && mm)) close(c, SC[i], h.data(b + SC[i] + "/data"), sC[i], rel); } else if (!nsp) { iff((b + SK[i]).c_str(), false); } if (iff((b + SS[i]).c_str(), sax && (M & MEAS_NSP_S) && (sl.nrt & RN[i]))) close(c, SS[i], h.data(b + SS[i] + "/data"), sS[i], rel); }
      for (auto &x : msk) { if (!iff(x.nm.c_str(), true)) continue; close(c, x.nm.c_str(), h.data(x.nm + "/data"), x.d, rel * 10); c.label("masked"); }
      bool nn = nsp && (sl.idx == 0 || (M & MEAS_NNSPEC)); if (iff("/nSpectrum/nmodes", nn)) close(c, "nmodes", h.data("/nSpectrum/nmodes/data"), nm, 1e-12); if (iff("/nSpectrum/averagek", nn)) close(c, "averagek", h.data("/nSpectrum/averagek/data"), ak, 1e-9);
      // histograms, from the field itself
      double hr = g.dp() ? 1e-12 : 4e-6; std::vector<double> d(V); auto arg = [&](size_t i) { return sax ? std::arg(m.d[i]) : m.d[i].real() / R; };
      if (iff("/bins/thetaB", M & MEAS_BINTHETA)) { double mx = 0; for (size_t i = 0; i < V; i++) { d[i] = arg(i); mx = std::max(mx, fabs(d[i])); } histogram(c, h, "thetaB", d, hr, 1e-300); c.check(fabs(md.maxTheta - mx) <= hr * mx, "maxTheta", "largest angle returned %.9g, is %.9g", md.maxTheta, mx); }
      if (iff("/bins/rhoB", sax && (M & MEAS_BINRHO))) { for (size_t i = 0; i < V; i++) d[i] = std::abs(m.d[i]) / R; histogram(c, h, "rhoB", d, hr, 1e-300); }
      if (iff("/bins/logtheta2B", M & MEAS_BINLOGTHETA2)) { for (size_t i = 0; i < V; i++) d[i] = log10(1e-10 + pow(arg(i), 2)); histogram(c, h, "logtheta2B", d, 4e-6, 1); }
      if (iff("/bins/contB", M & MEAS_BINDELTA)) { for (size_t i = 0; i < V; i++) d[i] = log10(all[i] / eA); histogram(c, h, "contB", d, 4e-6, 1); }
      // maps
      auto slice = [&](const char *nm, size_t N, bool cx, auto w) { auto q = h.data(nm); int k = cx ? 2 : 1; if (q.size() != N * k) { c.fail("map", "%s has %zu elements, expected %zu", nm, q.size(), N * k); return; } double sc = 0; for (size_t i = 0; i < N; i++) sc = std::max(sc, std::abs(w(i))); for (size_t i = 0; i < N; i++) if (!(std::abs(cd(q[i * k], cx ? q[i * k + 1] : 0) - w(i)) <= (g.dp() ? 1e-11 : 1e-5) * sc)) { c.fail("map", "%s element %zu is %.9g, expected %.9g", nm, i, q[i * k], std::real(w(i))); return; } };
      if (iff("/map/m", sl.maty & MAPT_XYMV)) { slice("/map/m", S, sax, [&](size_t i) { return m.at(i % n, i / n, sl.slice); }); slice("/map/v", S, sax, [&](size_t i) { return v.at(i % n, i / n, sl.slice); }); }
      if (iff("/mapp/m", sl.maty & MAPT_YZMV)) slice("/mapp/m", (size_t)n * nz, sax, [&](size_t i) { return m.at(sl.slice % n, i % n, i / n); });
      if (iff("/map/E", sl.maty & MAPT_XYE)) slice("/map/E", S, false, [&](size_t i) { return cd(all[(size_t)sl.slice * S + i]); });
      if (!(sl.maty & MAPT_XYPE2) || !(sl.maty & MAPT_XYPE)) { bool sq = sl.maty & MAPT_XYPE2; if (iff("/map/P", sl.maty & (MAPT_XYPE | MAPT_XYPE2))) slice("/map/P", S, false, [&](size_t i) { double w = 0; for (int z = 0; z < nz; z++) w += sq ? all[z * S + i] * all[z * S + i] : all[z * S + i]; return cd(w / nz); }); }
      // strings
      bool wantS = sax && (M & (MEAS_STRING | MEAS_STRINGMAP | MEAS_STRINGCOO)); if (wantS) { double q = h.num("/string", "String number"); if (!(q >= st.n && q <= st.n + st.amb)) c.fail("string", "the file says %g pierced plaquettes, the field has %ld (and %ld undecided)", q, st.n, st.amb); c.check((double)md.str.strDen == q, "string", "returned %zu pierced plaquettes, written %g", md.str.strDen, q); if (st.n) c.label("strings"); }
      (void)need; (void)np; } }
  commSync(); if (commRank() == 0) { remove(measFile(sl.idx).c_str()); remove(confFile(sl.idx).c_str()); } commSync(); }
}
LAW(C23, selection, 500, 12000, NP1 | NP2 | NP3 | NP4) {
  int np = commSize(); Cfg g; g.type = c.pick<FieldType>({FIELD_SAXION, FIELD_AXION}); bool sax = g.type == FIELD_SAXION; geom(c, g, true, false); int lanes = (g.dp() ? 2 : 4) * (sax ? 1 : 2); while (g.n % lanes || g.n % np || g.n < std::max(8, 2 * lanes)) g.n += 2; g.nz = g.n; g.zi = c.logreal(0.3, 4); g.indi3 = c.pick<double>({1, 0, 0.3}); g.gamma = c.pick<double>({0, 0.3}); g.lz2e = c.pick<double>({0, 2}); g.ltype = g.lz2e != 0 ? LAMBDA_Z2 : LAMBDA_FIXED; g.pot = (VqcdType)(c.pick<int>({V_QCD1, V_QCD1, V_QCD2}) | c.pick<int>({V_PQ1, V_PQ1, V_PQ2})); if (!sax) g.pot = (VqcdType)(V_QCD1 | V_PQ1);
  struct K { double a = zInit, b = zFinl; int d = dump, n = nSteps; ConfType t = cType; ~K() { zInit = a; zFinl = b; dump = d; nSteps = n; cType = t; } } keep; zInit = c.logreal(0.01, 5); zFinl = c.logreal(5, 90); nSteps = c.range(0, 100000); dump = c.range(1, 500); cType = CONF_NONE; double R = pow(g.zi, g.frw);
  Content km = drawContent(c, sax ? 0.7 * R : 0.9 * R, sax ? cd(0.5 * R, 0.1 * R) : cd(0)), kv = drawContent(c, R, 0); int k = c.range(1, 2); std::vector<Sel> S; for (int i = 0; i < k; i++) S.push_back(drawSel(c, g, sax)); std::string t; for (auto &x : S) { char b[160]; snprintf(b, sizeof b, " [meas=%d nrt=%d maps=%d index=%d slice=%d mask=%d radii=%.3g,%.3g]", x.meas, x.nrt, x.maty, x.idx, x.slice, x.mask, x.lat.size() ? x.lat[0] : 0, x.lat.size() > 1 ? x.lat[1] : 0); t += b; }
  c.say("%s%s kinds=%d,%d", g.str().c_str(), t.c_str(), km.kind, kv.kind); (void)np;
  { Fld f(g); f.poisonGhosts(); if (!(fabs(f.s->Saskia()) < 100)) { c.discarded = true; return; } for (auto &x : S) { Grid m = fillGrid(km, g.n, g.nz, sax, g.prec), v = fillGrid(kv, g.n, g.nz, sax, g.prec); km.seed += 77; kv.seed += 78; km.base *= 1.1; scatterM(f, m); scatterV(f, v); f.s->setM2(M2_DIRTY); one(c, f, g, m, v, x); if (x.meas & ~MEAS_3DMAP) c.label("measured"); } }
  c.nontrivial = km.kind != 0 && kv.kind != 0 && (S[0].meas & ~MEAS_3DMAP); }
