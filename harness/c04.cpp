// C04: results do not depend on the number of processes and threads, on the block shape, or on where the periodic box is cut
#include "runs.h"
#include "propagator/propBase.h"
#include "propagator/allProp.h"
#include "energy/energy.h"
#include "strings/strings.h"
#include "spectrum/spectrum.h"
#include <omp.h>
extern std::unique_ptr<PropBase> prop;
extern PropType pType;
// ---- whole runs ------------------------------------------------------------------------------------------------
static bool timeKey(const std::string &k) { for (const char *w : {"time", "Time", "step", "Step"}) if (k.find(w) != std::string::npos) return true; return false; }
// a box that can be cut into several numbers of slabs
static std::vector<int> recut(Case &c, Setup &s) {
  int unit = c.pick<int>({4, 2, 6}); s.g.nz = unit * c.range(std::max(1, (s.g.Ng * 2 + unit - 1) / unit), unit == 2 ? 6 : 3); if (unit == 6 && s.g.n % 3) s.g.n = 24; std::vector<int> ok; for (int p : {1, 2, 3, 4}) if (s.g.nz % p == 0 && s.g.n % p == 0 && s.g.nz / p >= s.g.Ng && s.g.nz / p >= 1) ok.push_back(p); return ok; }
static bool sums(Case &c, const std::string &a, const std::string &b, double eps, const char *w0, const char *w1) {
  H5All x(a), y(b); if (!x.ok || !y.ok) { c.fail("measurement file", "measurement file missing"); return false; }
  for (auto &e : y.num) if (!x.num.count(e.first)) { c.fail("measurement set", "%s is only there %s", e.first.c_str(), w1); return false; }
  for (auto &e : x.num) { const std::string &k = e.first; if (timeKey(k)) continue; auto i = y.num.find(k); if (i == y.num.end() || i->second.size() != e.second.size()) { c.fail("measurement set", "%s differs in presence or size", k.c_str()); return false; }
    const auto &p = e.second, &q = i->second; bool bins = k.find("/bins") == 0 && k.find("@") == std::string::npos; double sc = 0, d = 0, tot = 0; size_t at = 0; for (size_t j = 0; j < p.size(); j++) { if (!std::isfinite(p[j]) && !std::isfinite(q[j])) continue; if (p[j] == q[j]) { tot += fabs(p[j]); sc = std::max(sc, fabs(p[j])); continue; } double e1 = fabs(p[j] - q[j]); if (!(e1 <= d)) { d = e1; at = j; } sc = std::max(sc, std::max(fabs(p[j]), fabs(q[j]))); tot += fabs(p[j]); if (std::isnan(e1) || std::isinf(e1)) { d = INFINITY; at = j; break; } }
    bool integer = k.find("string") != std::string::npos || k.find("String") != std::string::npos || k.find("wall") != std::string::npos || k.find("chirality") != std::string::npos;
    // a datum on the edge of a bin may fall on either side when the edge moves by a rounding error: compare the mass moved across
    if (bins) { double mv = 0, cum = 0; for (size_t j = 0; j < p.size(); j++) { cum += p[j] - q[j]; mv = std::max(mv, fabs(cum)); } if (!(mv <= 0.02 * tot)) { c.fail("histogram", "%s differs: %g of %g moved", k.c_str(), mv, tot); return false; } continue; }
    // the spread of nearly cancelling terms is bounded by the largest energy, not by the datum
    double tol = integer ? 0 : 3e3 * eps * sc; if (!(d <= tol)) { c.fail("measurement", "%s [%zu] is %.17g %s and %.17g %s", k.c_str(), at, p[at], w0, q[at], w1); return false; } }
  return true; }
LAW(C04, programs, 40, 1600, NP1) { keepGlobals([&] {
  Setup s = draw(c, false); auto cuts = recut(c, s); int p0 = c.pick(cuts), t0 = c.pick<int>({1, 2, 3}), p1 = c.pick(cuts), t1 = c.pick<int>({1, 2, 3, 4}); if (p0 == p1 && t0 == t1) { p0 = cuts[0]; p1 = cuts.back(); } int idx = c.range(0, 2); Prog a, b; std::string w0 = "on " + std::to_string(p0) + " ranks, " + std::to_string(t0) + " threads", w1 = "on " + std::to_string(p1) + " ranks, " + std::to_string(t1) + " threads";
  bool meas = c.chance(3, 4) && !slack(s), axion = s.g.type == FIELD_AXION; std::string list = "ct meas\n"; int me = 0; if (meas) { me = 256 | (s.g.lowmem ? 0 : c.pick<int>({0, 1 | 2, 15})); if (!s.g.lowmem && c.flip()) me |= 16384 | 65536 | 262144; if (!axion && !s.g.lowmem) me |= c.pick<int>({0, 32, 32 | 32768}); char t[80]; snprintf(t, sizeof t, "%.9g %d\n", s.g.zi + s.dz * c.range(1, s.steps), me); list += t; }
  c.say("%s %s; %s; steps=%d dz=%g adaptive=%d measured=%d: %s", s.g.str().c_str(), w0.c_str(), w1.c_str(), s.steps, s.dz, s.adaptive, me, s.args.c_str());
  for (Prog *p : {&a, &b}) if (meas) { FILE *f = fopen((p->dir + "/measfile.dat").c_str(), "w"); fputs(list.c_str(), f); fclose(f); } writeStart(c, s, a, idx); link(a.conf(idx).c_str(), b.conf(idx).c_str());
  s.np = p0; a.run("vaxions", p0, t0, s.args + timing(s, s.steps) + " --index " + std::to_string(idx)); if (!ran(c, a, w0.c_str())) return; s.np = p1; b.run("vaxions", p1, t1, s.args + timing(s, s.steps) + " --index " + std::to_string(idx)); if (!ran(c, b, w1.c_str())) return;
  if (a.last() <= idx || b.last() <= idx) { c.fail("output", "no final configuration (last %d and %d)", a.last(), b.last()); return; } if (!same(c, a.conf(a.last()), b.conf(b.last()), "final configuration", w0.c_str(), w1.c_str(), slack(s))) return;
  auto A = a.list("out/m", "axion.m."), B = b.list("out/m", "axion.m."); if (A != B) { c.fail("files", "%zu measurement files %s and %zu %s", A.size(), w0.c_str(), B.size(), w1.c_str()); return; }
  for (auto &n : A) if (!sums(c, a.dir + "/out/m/" + n, b.dir + "/out/m/" + n, s.g.eps(), w0.c_str(), w1.c_str())) return;
  c.nontrivial = p0 != p1 || t0 != t1; c.label(p0 == p1 ? "threads only" : "ranks"); }); }
// ---- inside one process ----------------------------------------------------------------------------------------
static double stepOf(const Cfg &g) { double R = pow(g.zi, g.frw), R1 = pow(g.zi * 1.5, g.frw), ma = pow(R1, g.nqcd / 2) * R1 * sqrt(g.indi3) * 2; return std::min(std::min(0.2 * g.L / g.n, 0.15 * g.zi), 0.2 / std::max(R1 * sqrt(2 * g.lambda) * 1.5, ma)) + 0 * R; }
static void drawField(Case &c, Cfg &g, Content &km, Content &kv) {
  int np = commSize(); g.type = c.pick<FieldType>({FIELD_SAXION, FIELD_AXION, FIELD_SAXION, FIELD_AXION_MOD}); g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); int lanes = (g.dp() ? 2 : 4) * (g.cplx() ? 1 : 2); g.Ng = c.pick<int>({1, 2, 1, 3}); if (g.type == FIELD_AXION_MOD) g.Ng = 1; g.n = lanes * c.range(2 * g.Ng, 2 * g.Ng + 3); while (g.n % np || g.n < 8) g.n += lanes; if (g.n > 48) g.n = 48; g.nz = np * c.range(std::max(2, g.Ng), 2 * g.Ng + 4);
  g.zi = c.logreal(0.4, 4); g.frw = c.pick<double>({1, 0.5, 2}); g.L = c.logreal(2, 10); g.lambda = c.logreal(1, 30); g.nqcd = c.pick<double>({7, 0, 4}); g.pot = (VqcdType)(V_QCD1 | V_PQ1); if (g.type == FIELD_SAXION) g.pot = (VqcdType)(V_PQ1 | c.pick<int>({V_QCD1, V_QCD2, V_QCD1 | V_DAMP_RHO, V_QCD1 | V_EVOL_RHO})); if (g.pot & V_DAMP) g.gamma = 0.3; 
  double R = pow(g.zi, g.frw); km = drawContent(c, g.cplx() ? 0.6 * R : 2 * R, g.cplx() ? cd(0.5 * R, 0.1 * R) : cd(0), false); kv = drawContent(c, 0.5 * R, 0, false); }
static void evolve(const Cfg &g, Fld &f, int threads, unsigned by, unsigned bz, int steps, double dz) {
  omp_set_num_threads(threads); pType = (PropType)(PROP_BASE | PROP_RKN4); initPropagator(pType, f.s, g.pot, g.Ng); if (by) { prop->SetBlockY(by); prop->SetBlockZ(bz); } for (int i = 0; i < steps; i++) propagate(f.s, dz); prop.reset(); }
static bool equal(Case &c, const Grid &a, const Grid &b, const char *what, int sx = 0, int sy = 0, int sz = 0) {
  for (int z = 0; z < a.nz; z++) for (int y = 0; y < a.n; y++) for (int x = 0; x < a.n; x++) { cd p = a.at(x, y, z), q = b.at(x + sx, y + sy, z + sz); if (!(p == q)) { c.fail(what, "%s differs at (%d,%d,%d): (%.17g,%.17g) and (%.17g,%.17g)", what, x, y, z, p.real(), p.imag(), q.real(), q.imag()); return false; } } return true; }
struct Meas { std::vector<double> e; StringData s{}; bool str = false; std::vector<double> sp[4]; };
static Meas measure(Fld &f, const Cfg &g) {
  Meas M; Quiet q; M.e.assign(64, 0); energy(f.s, M.e.data(), EN_MAP, 0); M.e.resize(g.cplx() ? 10 : 5);
  if (g.type != FIELD_AXION_MOD) { MeasInfo mi; mi.nbinsspec = -1; SpecBin b(f.s, false, mi); b.pRun(); M.sp[3].assign(b.data(SPECTRUM_P), b.data(SPECTRUM_P) + b.NBins()); b.nRun(SPMASK_FLAT, NRUN_KGV); M.sp[0].assign(b.data(SPECTRUM_KK), b.data(SPECTRUM_KK) + b.NBins()); M.sp[1].assign(b.data(SPECTRUM_GG), b.data(SPECTRUM_GG) + b.NBins()); M.sp[2].assign(b.data(SPECTRUM_VV), b.data(SPECTRUM_VV) + b.NBins()); }
  if (g.cplx()) { M.s = strings(f.s); M.str = true; } return M; }
static void sameMeas(Case &c, const Meas &a, const Meas &b, const Cfg &g) {
  double sc = 0; for (double e : a.e) sc = std::max(sc, fabs(e)); for (size_t i = 0; i < a.e.size(); i++) if (!(fabs(a.e[i] - b.e[i]) <= 1e3 * g.eps() * sc)) { c.fail("energy", "energy component %zu is %.17g and %.17g", i, a.e[i], b.e[i]); return; }
  if (a.str && (a.s.strDen != b.s.strDen || a.s.strChr != b.s.strChr || a.s.wallDn != b.s.wallDn)) { c.fail("strings", "strings %ld %ld %ld and %ld %ld %ld", (long)a.s.strDen, (long)a.s.strChr, (long)a.s.wallDn, (long)b.s.strDen, (long)b.s.strChr, (long)b.s.wallDn); return; }
  for (int k = 0; k < 4; k++) { double m = 0; for (double e : a.sp[k]) if (std::isfinite(e)) m = std::max(m, fabs(e)); if (a.sp[k].size() != b.sp[k].size()) { c.fail("spectrum", "spectrum %d has %zu and %zu bins", k, a.sp[k].size(), b.sp[k].size()); return; } for (size_t i = 0; i < a.sp[k].size(); i++) if (a.sp[k][i] != b.sp[k][i] && !(!std::isfinite(a.sp[k][i]) && !std::isfinite(b.sp[k][i])) && !(fabs(a.sp[k][i] - b.sp[k][i]) <= 1e4 * g.eps() * m)) { c.fail("spectrum", "bin %zu of spectrum %d is %.17g and %.17g (largest %.3g)", i, k, a.sp[k][i], b.sp[k][i], m); return; } } }
struct Threads { int n = omp_get_max_threads(); ~Threads() { omp_set_num_threads(n); } };
// threads and block shapes: fields bit for bit, sums up to rounding
LAW(C04, threads, 220, 6000, NP1 | NP2 | NP3) {
  Threads keep; Cfg g; Content km, kv; drawField(c, g, km, kv); int lanes = (g.dp() ? 2 : 4) * (g.cplx() ? 1 : 2), lz = g.nz / commSize(), steps = c.range(1, 3), t = c.range(1, std::max(1, keep.n)); unsigned by = c.range(1, g.n / lanes + 1), bz = c.range(1, lz + 1), by2 = c.range(0, g.n / lanes), bz2 = c.range(1, lz); double dz = stepOf(g); c.say("%s threads 1 and %d, blocks %u,%u and %u,%u, steps %d km=%d kv=%d", g.str().c_str(), t, by, bz, by2, bz2, steps, km.kind, kv.kind);
  Grid m = fillGrid(km, g.n, g.nz, g.cplx(), g.prec), v = fillGrid(kv, g.n, g.nz, g.cplx(), g.prec); 
  // one field at a time: the plans of the Fourier transforms belong to the field they were made for
  auto leg = [&](int th, unsigned y, unsigned z, Grid &om, Grid &ov) { Fld f(g); scatterM(f, m); scatterV(f, v); evolve(g, f, th, y, z, steps, dz); om = gatherM(f); ov = gatherV(f); omp_set_num_threads(th); return measure(f, g); };
  Grid am, av, bm, bv; Meas A = leg(1, by2, bz2, am, av), B = leg(t, by, bz, bm, bv); equal(c, am, bm, "field"); equal(c, av, bv, "velocity"); if (c.fails.empty()) sameMeas(c, A, B, g); c.nontrivial = t > 1; c.label("type" + std::to_string((int)g.type)); }
// moving the box: every site sees the same neighbours whichever slab, row or vector lane holds them
LAW(C04, translation, 320, 9000, NP1 | NP2 | NP3 | NP4) {
  Threads keep; Cfg g; Content km, kv; drawField(c, g, km, kv); int sx = c.range(0, g.n - 1), sy = c.range(0, g.n - 1), sz = c.range(0, g.nz - 1), steps = c.range(1, 3), t = keep.n; double dz = stepOf(g); c.say("%s moved by (%d,%d,%d), steps %d km=%d kv=%d", g.str().c_str(), sx, sy, sz, steps, km.kind, kv.kind);
  Grid m = fillGrid(km, g.n, g.nz, g.cplx(), g.prec), v = fillGrid(kv, g.n, g.nz, g.cplx(), g.prec), m2(g.n, g.nz), v2(g.n, g.nz); for (int z = 0; z < g.nz; z++) for (int y = 0; y < g.n; y++) for (int x = 0; x < g.n; x++) { m2.at(x + sx, y + sy, z + sz) = m.at(x, y, z); v2.at(x + sx, y + sy, z + sz) = v.at(x, y, z); }
  auto leg = [&](const Grid &im, const Grid &iv, Grid &om, Grid &ov) { Fld f(g); scatterM(f, im); scatterV(f, iv); evolve(g, f, t, 0, 0, steps, dz); om = gatherM(f); ov = gatherV(f); return measure(f, g); };
  Grid am, av, bm, bv; Meas A = leg(m, v, am, av), B = leg(m2, v2, bm, bv); equal(c, am, bm, "field", sx, sy, sz); equal(c, av, bv, "velocity", sx, sy, sz); if (c.fails.empty()) sameMeas(c, A, B, g); c.nontrivial = sx || sy || sz; c.label("type" + std::to_string((int)g.type)); }
