// C21: configurations written to disk and read back
#include "resample.h"
#include "h5.h"
#include "io/readWrite.h"
#include "fft/fftCode.h"
#include "scalar/fourier.h"
#include "scalar/thetaScalar.h"
#include <fftw3.h>
#include <mpi.h>
#include <omp.h>
#include <math.h>
extern int dump, nSteps, fIndex; extern bool uSize, uQcd, uFR, uMI;
using namespace ref; using namespace AxionFFT;
static std::string confFile(int i, bool rs) { char b[64]; snprintf(b, sizeof b, ".%05d", i); return std::string(outDir) + "/" + outName + (rs ? ".restart" : b); }
struct Globals { bool a = uPrec, b = uZin, c = uZfn, d = uFR, e = uMI; FieldType f = fTypeP; LambdaType l = lType; size_t n = sizeN, z = sizeZ; int g = zGrid; ConfType ct = cType; ConfsubType st = smvarType; size_t pl = fftplanType; FieldPrecision p = sPrec;
  ~Globals() { uPrec = a; uZin = b; uZfn = c; uFR = d; uMI = e; fTypeP = f; lType = l; sizeN = n; sizeZ = z; zGrid = g; cType = ct; smvarType = st; fftplanType = pl; sPrec = p; } };
static const ConfType CT[] = {CONF_NONE, CONF_SMOOTH, CONF_KMAX, CONF_VILGOR, CONF_LOLA, CONF_COLE, CONF_TKACHEV, CONF_THERMAL, CONF_SPAX};
static const char *CTn[] = {"None", "Smooth", "kMax", "VilGor", "Lola", "Cole", "Tkachev", "Thermal", "Axion Spectrum"};
static const ConfsubType ST[] = {CONF_RAND, CONF_STRINGXY, CONF_STRINGYZ, CONF_MINICLUSTER, CONF_MINICLUSTER0, CONF_AXNOISE, CONF_SAXNOISE, CONF_AX1MODE, CONF_PARRES, CONF_STRWAVE};
static const char *STn[] = {"Random", "String XY", "String YZ", "Minicluster", "Minicluster 0", "Axion noise", "Saxion noise", "Axion one mode", "Parametric Resonance", "String + wave"};
static const VqcdType QC[] = {V_QCD1, V_QCD0, V_QCDV, V_QCDL, V_QCDC, V_QCD2}; static const char *QCn[] = {"VQcd 1", "VQcd 0", "VQcd Variant", "VQcd Linear", "VQcd Cos", "VQcd N = 2"};
static const VqcdType PQ[] = {V_PQ1, V_PQ2, V_PQ3}; static const char *PQn[] = {"VPQ 1", "VPQ 2", "VPQ 3"};
static const VqcdType DA[] = {V_NONE, V_DAMP_RHO, V_DAMP_ALL}; static const char *DAn[] = {"None", "Rho", "All"};
struct Meta { int ct, st, q, p, d; bool rho; };
static void background(Case &c, Cfg &g, Meta &k) {
  g.L = c.logreal(0.5, 50); g.zi = c.logreal(0.1, 20); g.lambda = c.logreal(0.5, 1e5); g.lz2e = c.pick<double>({0, 0, 2, 1, 1.5}); g.ltype = g.lz2e != 0 ? LAMBDA_Z2 : LAMBDA_FIXED; g.indi3 = c.pick<double>({1, 0, 3.3, 0.2}); g.nqcd = c.pick<double>({7, 0, 4, 6.68}); g.nqcdr = c.flip() ? g.nqcd : c.pick<double>({2, 5.5}); g.zth = c.pick<double>({1e8, 3, 0.7}); g.zrs = c.pick<double>({1e30, 5, 1e8}); g.frw = c.pick<double>({1, 1, 2, 0.5, 0}); g.mink = g.frw == 0; g.gamma = c.pick<double>({0, 0, 0.3, 2}); 
  k.q = c.range(0, 5); k.p = c.range(0, 2); k.d = c.range(0, 2); k.rho = c.chance(1, 4); g.pot = (VqcdType)(QC[k.q] | PQ[k.p] | DA[k.d] | (k.rho ? V_EVOL_RHO : V_NONE)); k.ct = c.range(0, 8); k.st = c.range(0, 9);
  cType = CT[k.ct]; smvarType = ST[k.st]; iter = c.range(0, 90); alpha = c.real(0.01, 1); kMax = c.range(1, 50); kCrit = c.real(0.1, 5); mode0 = c.real(-3, 3); zInit = c.logreal(0.01, 5); zFinl = c.logreal(5, 90); nSteps = c.range(0, 100000); dump = c.range(1, 500); }
static void geom(Case &c, Cfg &g, bool fold) {
  int np = commSize(); g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); g.Ng = c.pick<int>({1, 2, 1, 3}); int n = c.range(1, 5) * 4; while ((n * n * (g.cplx() ? 2 : 1) * g.prec) % 32 || (fold && n % 8)) n += 4; while (n % np) n += (fold ? 8 : 4); g.n = n; int lz = c.range(std::max(1, g.Ng), 8); g.nz = std::max(2, lz) * np; }
static void cmpGrid(Case &c, const Grid &g, const Grid &w, const char *what, double tol) { for (size_t i = 0; i < w.d.size(); i++) if (!(std::abs(g.d[i] - w.d[i]) <= tol)) { int n = w.n; c.fail(what, "%s at (%d,%d,%d) is (%.9g,%.9g), expected (%.9g,%.9g)", what, (int)(i % n), (int)(i / n % n), (int)(i / n / n), g.d[i].real(), g.d[i].imag(), w.d[i].real(), w.d[i].imag()); return; } }
static double gmax(const Grid &g) { double m = 0; for (auto q : g.d) m = std::max(m, std::abs(q)); return m; }
LAW(C21, write, 250, 11000, NP1 | NP2 | NP3) {
  Globals keep; Cfg g; Meta k; g.type = c.pick<FieldType>({FIELD_SAXION, FIELD_AXION, FIELD_SAXION, FIELD_AXION, FIELD_AXION_MOD, FIELD_PAXION}); bool fold = g.type != FIELD_PAXION && c.flip(); geom(c, g, fold); background(c, g, k); g.lowmem = g.type == FIELD_SAXION && c.chance(1, 5); bool mom = !g.lowmem && (g.type == FIELD_SAXION || g.type == FIELD_AXION) && c.chance(1, 4) && g.nz / commSize() >= 2; if (mom) while (g.n % commSize() || g.n % 8) g.n += 4; bool rs = c.chance(1, 4); int idx = c.range(0, 99999), n = g.n, nz = g.nz;
  Content km = drawContent(c, 1, cd(0.3, 0.1)), kv = drawContent(c, 2, 0); c.say("%s folded=%d momentum=%d restart=%d index=%d ic=%d/%d", g.str().c_str(), fold, mom, rs, idx, k.ct, k.st); Fld f(g); Scalar *s = f.s; bool cx = f.cplx(); if (fold) f.fold(); Grid m = fillGrid(km, n, nz, cx, g.prec), v = fillGrid(kv, n, nz, cx, g.prec); f.poisonGhosts(); scatterM(f, m); scatterV(f, v); double tol = 0;
  if (mom) { if (cx) { initPlan(s, FFT_CtoC_MtoM, FFT_FWDBCK, "C2CM2M"); initPlan(s, FFT_CtoC_VtoV, FFT_FWDBCK, "C2CV2V"); } else { initPlan(s, FFT_RtoC_M2toM, FFT_FWDBCK, "R2CM22M"); initPlan(s, FFT_RtoC_M2toV, FFT_FWDBCK, "R2CM22V"); } scatterM(f, m); scatterV(f, v); Quiet q; FTfield ft(s); ft(FIELD_MV, FFT_FWD); tol = 40 * g.eps() * log2((double)n * n * nz) * (1 + gmax(m) + gmax(v)); }
  { Quiet q; writeConf(s, idx, rs); } std::string fn = confFile(idx, rs);
  c.check(!s->MMomSpace() && !s->VMomSpace(), "momspace", "field still marked as in momentum space after being written"); cmpGrid(c, gatherM(f), m, "memory m", tol); cmpGrid(c, gatherV(f), v, "memory v", tol);
  if (commRank() == 0) { H5 h(fn); if (!h.ok()) { c.fail("file", "no configuration file %s", fn.c_str()); return; } int k2 = cx ? 2 : 1;
    for (int w = 0; w < 2; w++) { int es; auto d = h.data(w ? "/v" : "/m", &es); const Grid &q = w ? v : m; if (d.size() != q.d.size() * k2 || es != (int)g.prec) { c.fail("shape", "/%s has %zu elements of %d bytes, expected %zu of %d", w ? "v" : "m", d.size(), es, q.d.size() * k2, (int)g.prec); return; } Grid r(n, nz); for (size_t i = 0; i < r.d.size(); i++) r.d[i] = cx ? cd(d[2 * i], d[2 * i + 1]) : cd(d[i], 0); cmpGrid(c, r, q, w ? "file v" : "file m", tol); }
    auto num = [&](const char *o, const char *a, double w) { double q = h.num(o, a); if (!(q == w) && std::isfinite(w)) c.fail("attribute", "attribute %s of %s is %.17g, expected %.17g", a, o, q, w); }; auto str = [&](const char *o, const char *a, const char *w) { auto q = h.str(o, a); if (q != w) c.fail("attribute", "attribute %s of %s is '%s', expected '%s'", a, o, q.c_str(), w); };
    str("/", "Field type", g.type == FIELD_SAXION ? "Saxion" : g.type == FIELD_AXION_MOD ? "Axion Mod" : g.type == FIELD_PAXION ? "Paxion" : "Axion"); str("/", "Precision", g.dp() ? "Double" : "Single"); num("/", "Size", n); num("/", "Depth", nz); num("/", "Physical size", g.L); num("/", "z", g.zi); num("/", "R", *s->RV()); num("/", "Frw", g.frw); num("/", "zInitial", zInit); num("/", "zFinal", zFinl); num("/", "nSteps", nSteps); num("/", "Current step", (double)(int)((unsigned)dump * (unsigned)idx)); num("/", "Axion mass", s->AxionMass()); num("/", "Saxion mass", s->Msa()); if (rs) num("/", "index", idx);
    const char *p = "/potential"; str(p, "Lambda type", g.ltype == LAMBDA_Z2 ? "z2" : "Fixed"); num(p, "Lambda", g.lambda); num(p, "Lambda Z2 exponent", g.lz2e); str(p, "VQcd type", QCn[k.q]); str(p, "VPQ type", PQn[k.p]); str(p, "Damping type", DAn[k.d]); str(p, "Evolution type", k.rho ? "Only Rho" : "Full"); num(p, "nQcd", g.nqcd); num(p, "nQcd2", g.nqcdr); num(p, "Gamma", g.gamma); num(p, "Indi3", g.indi3); num(p, "z Threshold", g.zth); num(p, "z Restore", g.zrs); num(p, "Shift", s->Saskia());
    str("/ic", "Initial conditions", CTn[k.ct]); str("/ic", "Configuration type", STn[k.st]); num("/ic", "Axion zero mode", mode0); if (k.ct >= 2 && k.ct <= 6) { num("/ic", "Max k", kMax); num("/ic", "Critical kappa", kCrit); } if (k.ct == 1) { num("/ic", "Smoothing iterations", iter); num("/ic", "Smoothing constant", alpha); } }
  commSync(); if (commRank() == 0) remove(fn.c_str()); c.nontrivial = km.kind != 0 && kv.kind != 0; c.label(mom ? "from momentum space" : fold ? "folded" : "plain"); }
// a fresh background as the programs build it when reading a configuration
static IcData icOf(const Cfg &g, double zi) { IcData ic; memset((void *)&ic, 0, sizeof ic); ic.cType = CONF_NONE; ic.zi = zi; ic.Nghost = g.Ng; ic.fType = g.type; return ic; }
LAW(C21, roundtrip, 350, 14000, NP1 | NP2 | NP3) {
  Globals keep; Cfg g; Meta k; g.type = c.pick<FieldType>({FIELD_SAXION, FIELD_AXION, FIELD_SAXION, FIELD_AXION, FIELD_AXION_MOD, FIELD_PAXION}); bool fold = g.type != FIELD_PAXION && c.flip(); geom(c, g, fold); background(c, g, k); bool lm = g.type == FIELD_SAXION && c.chance(1, 5); bool rs = c.chance(1, 4), sib = c.chance(1, 4); int idx = c.range(0, 99999), n = g.n, nz = g.nz, np = commSize();
  unsigned ov = c.chance(1, 3) ? 0 : (unsigned)c.range(0, 8191); FieldPrecision rp = g.prec; if (c.chance(1, 4)) rp = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); bool up = rp != g.prec || c.chance(1, 4); while ((n * n * (g.cplx() ? 2 : 1) * rp) % 32) rp = FIELD_DOUBLE, up = true;
  Content km = drawContent(c, 1, cd(0.3, 0.1)), kv = drawContent(c, 2, 0); c.say("%s folded=%d lowmem=%d restart=%d overrides=%u precision %d->%d ic=%d/%d", g.str().c_str(), fold, lm, rs, ov, (int)g.prec, (int)rp, k.ct, k.st);
  Grid m, v; double zi0 = zInit, zf0 = zFinl, md0 = mode0, al0 = alpha, kc0 = kCrit; size_t it0 = iter, kM0 = kMax; double R0;
  auto body = [&](Fld &f) { bool cx = f.cplx(); if (fold) f.fold(); m = fillGrid(km, n, nz, cx, g.prec); v = fillGrid(kv, n, nz, cx, g.prec); f.poisonGhosts(); scatterM(f, m); scatterV(f, v); R0 = *f.s->RV(); { Quiet q; writeConf(f.s, idx, rs); if (sib) { scatterM(f, v); writeConf(f.s, rs ? idx : (idx + 1) % 100000, !rs && c.flip()); } } };
  { Fld f(g); body(f); } (void)R0; std::string fn = confFile(idx, rs);
  // command line
  Cosmos b; Cfg w = g; double zt = g.zi; uPrec = up; sPrec = up ? rp : c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); cType = CONF_NONE; smvarType = CONF_RAND; iter = 777; alpha = 7.77; kMax = 777; kCrit = 7.77; mode0 = 7.77; zInit = 1e-3; zFinl = 1e3; sizeN = n; sizeZ = nz / np; zGrid = np; fTypeP = (g.type == FIELD_AXION && c.flip()) ? FIELD_AXION : (g.type == FIELD_AXION_MOD) ? FIELD_AXION_MOD : (g.type == FIELD_SAXION) ? FIELD_SAXION : g.type == FIELD_AXION ? FIELD_AXION : FIELD_PAXION; lowmem = lm; fIndex = rs ? -1 : idx; uFR = uMI = uZin = uZfn = false; lType = c.pick<LambdaType>({LAMBDA_FIXED, LAMBDA_Z2});
  auto on = [&](int i) { return ov >> i & 1; };
  if (on(0)) { w.L = 3.25; b.SetPhysSize(w.L); } if (on(1)) { w.nqcd = w.nqcdr = 3.5; b.SetQcdExp(3.5); } if (on(2)) { w.indi3 = c.pick<double>({0.75, 0}); b.SetIndi3(w.indi3); } if (on(3)) { w.zth = 2.5; b.SetZThRes(2.5); } if (on(4)) { w.zrs = 8.5; b.SetZRestore(8.5); }
  if (on(5)) { w.lambda = 123.5; w.ltype = lType; w.lz2e = lType == LAMBDA_Z2 ? 2. : 0.; b.SetLambda(123.5); b.SetLamZ2Exp(w.lz2e); } if (on(6)) { w.gamma = 0.125; b.SetGamma(w.gamma); } VqcdType po = V_NONE; int q2 = c.range(0, 5), p2 = c.range(0, 2), e2 = c.range(0, 2); if (on(7)) po = (VqcdType)(po | QC[q2] | PQ[p2]); if (on(8)) po = (VqcdType)(po | DA[1 + e2 % 2]); if (on(9)) po = (VqcdType)(po | (e2 ? V_EVOL_RHO : V_EVOL_THETA)); b.SetQcdPot(po);
  int pick[] = {V_QCD, V_PQ, V_DAMP, V_EVOL}; unsigned wp = 0; for (int a : pick) wp |= (po & a) ? (po & a) : (g.pot & a); if (w.indi3 == 0) wp = (wp & ~(unsigned)V_QCD) | V_QCD0; w.pot = (VqcdType)wp;
  if (on(10)) { w.frw = c.pick<double>({1, 0.5, 2, 0}); if (w.frw == 0) { if (c.flip()) { b.SetMink(true); uMI = true; } else { b.SetFrw(0); uFR = true; } } else { b.SetFrw(w.frw); uFR = true; } } if (on(11)) { uZin = true; zt = 2.75; } if (on(12)) { uZfn = true; zFinl = 77; } b.SetICData(icOf(g, uZin ? 2.75 : 999)); b.SetUeC(false); b.SetFA(1e11); w.mink = w.frw == 0; if (rs) zt = g.zi; w.zi = zt;
  Scalar *r = nullptr; { Quiet q; readConf(&b, &r, idx, rs); } if (!r) { c.fail("null", "no field read"); commSync(); if (commRank() == 0) remove(fn.c_str()); return; }
  { Cfg a = g; a.prec = up ? rp : g.prec; Fld o(a, r); auto cnv = [&](Grid x) { for (auto &q : x.d) q = rndp(q, a.prec); return x; };
    auto eq = [&](const char *nm, double got, double want) { if (!(got == want)) c.fail("parameter", "%s is %.17g after reading, expected %.17g", nm, got, want); };
    eq("field type", r->Field(), g.type); eq("precision", r->Precision(), a.prec); eq("Length", r->Length(), n); eq("Depth", r->Depth(), nz / np); eq("TotalDepth", r->TotalDepth(), nz); eq("ghost range", r->getNg(), g.Ng); eq("folded", r->Folded(), 0); eq("lowmem", r->LowMem(), lm);
    if (r->Field() == g.type && r->Length() == (size_t)n && r->TotalDepth() == (size_t)nz && r->Precision() == a.prec) { cmpGrid(c, gatherM(o), cnv(m), "m", 0); cmpGrid(c, gatherV(o), cnv(v), "v", 0); }
    eq("time", *r->zV(), zt); eq("box length", b.PhysSize(), w.L); eq("nQcd", b.QcdExp(), w.nqcd); eq("nQcd2", b.QcdExpr(), w.nqcdr); eq("indi3", b.Indi3(), w.indi3); eq("z threshold", b.ZThRes(), w.zth); eq("z restore", b.ZRestore(), w.zrs); eq("lambda", b.Lambda(), w.lambda); eq("lambda exponent", b.LamZ2Exp(), w.lz2e); eq("lambda type", r->LambdaT(), w.ltype); eq("gamma", b.Gamma(), w.gamma); eq("frw", b.Frw(), w.frw); if (w.frw == 0) eq("mink", b.Mink(), 1); eq("potential", b.QcdPot(), w.pot); eq("zInit", zInit, zi0); eq("zFinl", zFinl, on(12) ? 77 : zf0); if (rs) eq("index", fIndex, idx);
    { Cosmos x; Cfg y = w; setupCosmos(x, y); double R = x.R(zt); eq("R", *r->RV(), R); }
    eq("zero mode", mode0, md0); eq("configuration subtype", smvarType, ST[k.st]); if (k.ct) eq("initial conditions", cType, CT[k.ct]); eq("mode0 of the IC data", b.ICData().mode0, md0); if (k.ct == 1) { eq("iter", iter, it0); eq("alpha", alpha, al0); } if (k.ct >= 2 && k.ct <= 6) { eq("kMax", kMax, kM0); eq("kCrit", kCrit, kc0); eq("kcr of the IC data", b.ICData().kcr, kc0); } eq("IC time", b.ICData().zi, zt); }
  commSync(); if (commRank() == 0) { remove(fn.c_str()); remove(confFile((idx + 1) % 100000, false).c_str()); remove(confFile(0, true).c_str()); } lowmem = false; fIndex = 0; c.nontrivial = km.kind != 0 && kv.kind != 0; c.label(ov ? "overrides" : "file only"); if (rs) c.label("restart"); }
// reading onto a lattice of another size: linear interpolation when finer, Gaussian filter + sampling when coarser; with or without change of type
LAW(C21, resize, 180, 8000, NP1 | NP2 | NP3) {
  Globals keep; Cfg g; int np = commSize(); g.type = c.pick<FieldType>({FIELD_SAXION, FIELD_AXION}); bool cx = g.type == FIELD_SAXION; g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); g.Ng = c.pick<int>({1, 2, 1}); bool up = c.flip(), measure = c.chance(1, 3), toComplex = !cx && c.chance(1, 3); int big = 8 * c.range(1, 2), lb = c.range(std::max(2, g.Ng), 7), ms = c.pick<int>({4, 8, 12}), ls = c.range(1, lb - 1); ms = up ? 4 * c.range(1, big / 4 - 1 ? big / 4 - 1 : 1) : c.range(2, big - 1); if (ms >= big) ms = 4; while (big % np || (up && (ms % np))) { big += 8; if (up) ms += 4; if (big > 48) { big = 24; ms = 12; break; } } if (up && ls < g.Ng) { ls = g.Ng; lb = std::max(lb, ls + 1); }
  int n0 = up ? ms : big, l0 = up ? ls : lb, n1 = up ? big : ms, l1 = up ? lb : ls; g.n = n0; g.nz = l0 * np; g.zi = c.logreal(0.3, 5); g.frw = c.pick<double>({1, 1, 0.5, 2}); Content km = drawContent(c, 1, cd(0.3, 0.1)), kv = drawContent(c, 2, 0); int idx = c.range(0, 99999);
  c.say("%s -> %dx%dx%d to complex %d planner %s", g.str().c_str(), n1, n1, l1 * np, toComplex, measure ? "measure" : "estimate"); if (g.nz < 2) { c.discarded = true; return; } Grid m, v; double R; { Fld f(g); m = fillGrid(km, n0, g.nz, cx, g.prec); v = fillGrid(kv, n0, g.nz, cx, g.prec); f.poisonGhosts(); scatterM(f, m); scatterV(f, v); R = *f.s->RV(); Quiet q; writeConf(f.s, idx); }
  Cosmos b; b.SetICData(icOf(g, 999)); b.SetUeC(false); b.SetFA(1e11); uPrec = uFR = uMI = uZin = uZfn = false; lType = LAMBDA_FIXED; sizeN = n1; sizeZ = l1; zGrid = np; fTypeP = toComplex || cx ? FIELD_SAXION : FIELD_AXION; fIndex = idx; lowmem = false; fftplanType = measure ? FFTW_MEASURE : FFTW_ESTIMATE; Scalar *r = nullptr; { Quiet q; readConf(&b, &r, idx); } commSync(); if (commRank() == 0) remove(confFile(idx, false).c_str()); fIndex = 0; if (!r) { c.fail("null", "no field read"); return; } Cfg a = g; a.type = fTypeP; Fld o(a, r);
  if (r->Field() != a.type || r->Length() != (size_t)n1 || r->Depth() != (size_t)l1 || *r->zV() != g.zi) { c.fail("dims", "field read has type %d, %zu^2 x %zu at time %g; expected %d, %d^2 x %d at %g", (int)r->Field(), r->Length(), r->Depth(), *r->zV(), (int)a.type, n1, l1, g.zi); return; }
  if (toComplex) { double Rp = b.Rp(g.zi); for (size_t i = 0; i < m.d.size(); i++) { double th = m.d[i].real() / R, vv = v.d[i].real(); cd w = R * std::polar(1., th); v.d[i] = (Rp * cd(1, -th) + cd(0, vv / R)) * w; m.d[i] = w; } }
  for (int w = 0; w < 2; w++) { Grid &q = w ? v : m; Grid e(n1, l1 * np); double tol; if (up) { for (int z = 0; z < l1 * np; z++) for (int y = 0; y < n1; y++) for (int x = 0; x < n1; x++) e.at(x, y, z) = linear(q, n0, l0, n1, l1, x, y, z); tol = (12 * (1 + n1) + (toComplex ? 40 : 0)) * g.eps() * (gmax(q) + 1e-30); }
    else { double fx = 2 * M_PI * M_PI / (n1 * n1), fz = 2 * M_PI * M_PI / ((double)l1 * np * l1 * np); e.d = expect(q.d, [=](int x, int y, int z) { return exp(-fx * (x * x + y * y) - fz * z * z); }, n0, g.nz, n1, l1, np); tol = (30 * log2((double)n0 * n0 * g.nz) + (toComplex ? 40 : 0)) * g.eps() * (gmax(q) + 1e-30); }
    cmpGrid(c, w ? gatherV(o) : gatherM(o), e, w ? "v" : "m", tol); }
  c.nontrivial = km.kind != 0 && kv.kind != 0; c.label(up ? "finer" : "coarser"); c.label(toComplex ? "angle to complex" : cx ? "complex" : "angle"); }
// change of type on reading
LAW(C21, convert, 150, 8000, NP1 | NP2 | NP3) {
  Globals keep; Cfg g; Meta k; int np = commSize(); int kind = c.range(0, 3); g.type = kind == 0 ? FIELD_AXION : kind == 3 ? FIELD_AXION_MOD : FIELD_SAXION; geom(c, g, true); background(c, g, k); if (g.frw == 0) g.zi = 1; FieldType to = kind == 1 ? FIELD_AXION : kind == 2 ? FIELD_AXION_MOD : FIELD_SAXION; bool cx = g.type == FIELD_SAXION; int n = g.n, nz = g.nz, idx = c.range(0, 99999); g.pot = (VqcdType)(c.pick<VqcdType>({V_QCD1, V_QCD0, V_QCDL, V_QCD2}) | c.pick<VqcdType>({V_PQ1, V_PQ2})); g.zi = std::min(g.zi, 4.); g.lambda = c.logreal(50, 1e5); g.indi3 = c.pick<double>({0.1, 0, 0.3}); g.nqcd = c.pick<double>({0, 2}); g.nqcdr = g.nqcd;
  double A = c.real(0.1, 3); Fld *pf = new Fld(g); std::unique_ptr<Fld> own(pf); double R = *pf->s->RV(), sh = pf->s->Saskia() * R; Content km = drawContent(c, cx ? 0.4 * R : A * R, cx ? cd(1.2 * R, 0.3 * R) : cd(0)), kv = drawContent(c, 2 * R, 0); c.say("%s -> type %d", g.str().c_str(), (int)to);
  Grid m = fillGrid(km, n, nz, cx, g.prec), v = fillGrid(kv, n, nz, cx, g.prec); pf->poisonGhosts(); scatterM(*pf, m); scatterV(*pf, v); { Quiet q; writeConf(pf->s, idx); }
  Grid em, ev; double eps = g.eps(); if (to == FIELD_SAXION) { double Rp = pf->cosmos.Rp(g.zi); em = m; ev = v; for (size_t i = 0; i < m.d.size(); i++) { double th = m.d[i].real() / R, vv = v.d[i].real(); em.d[i] = R * std::polar(1., th); ev.d[i] = (Rp * cd(1, -th) + cd(0, vv / R)) * em.d[i]; } }
  else { Quiet q; cmplxToTheta(pf->s, sh, to == FIELD_AXION_MOD); em = gatherM(*pf); ev = gatherV(*pf); } own.reset();
  Cosmos b; b.SetICData(icOf(g, 999)); b.SetUeC(false); b.SetFA(1e11); uPrec = uFR = uMI = uZin = uZfn = false; lType = LAMBDA_FIXED; sizeN = n; sizeZ = nz / np; zGrid = np; fTypeP = to; fIndex = idx; lowmem = false; Scalar *r = nullptr; { Quiet q; readConf(&b, &r, idx); } commSync(); if (commRank() == 0) remove(confFile(idx, false).c_str()); fIndex = 0; if (!r) { c.fail("null", "no field read"); return; }
  Cfg a = g; a.type = FIELD_SAXION; Fld o(a, r); if (r->Field() != to) { c.fail("type", "field type %d after reading, asked for %d", (int)r->Field(), (int)to); return; } double tm = 30 * eps * (gmax(em) + R * (1 + A)), tv = 60 * eps * (gmax(ev) + R); if (to != FIELD_SAXION) { tm = 30 * eps * gmax(em); tv = 60 * eps * (gmax(ev) + R * gmax(v)); } cmpGrid(c, gatherM(o), em, "m", tm); cmpGrid(c, gatherV(o), ev, "v", tv); c.nontrivial = km.kind != 0 && kv.kind != 0; static const char *L[] = {"angle to complex", "complex to angle", "complex to periodic angle", "periodic angle to complex"}; c.label(L[kind]); }
