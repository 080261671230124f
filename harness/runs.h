// Generated command lines of vaxion3d, start configurations and comparison of their output (C22, C04)
#pragma once
#include "prog.h"
#include "io/readWrite.h"
#include <math.h>
extern int dump, nSteps, fIndex;
using pbt::Case;
static void say1(std::string &s, const char *f, double v) { char b[64]; snprintf(b, sizeof b, f, v); s += b; }
// a generated physical set-up: the command line of vaxion3d and the same as a Cfg
struct Setup { Cfg g; int np, threads; std::string args, extra; double dz; int steps; bool adaptive; };
// vaxion3d searches the time at which domain walls disappear before its first step; for masses whose ratio is constant (or saturates) the search never ends (known finding of C22, law constant_masses)
static bool starts(const Cfg &g, double zf) { if (!(g.frw > 0 && g.indi3 > 0)) return true; Fld f(g); auto W = [&](double t) { return 40 * f.s->AxionMassSq(t) / (2 * f.s->BckGnd()->LambdaP(t)); };
  for (int j = 0; j <= 40; j++) { bool end = false; double z = g.zi + (zf - g.zi) * j / 40, ct = z, w0 = W(ct), w = w0, ct2 = ct * 1.1, w2 = W(ct2); for (int i = 0; i < 300 && !end; i++) { if (!(fabs(w2 - 1) > 0.001)) { end = true; break; } double a = log(w2 / w) / log(ct2 / ct), k = w2 / pow(ct2, a); if (a == 0 && w2 > w0) { if (w2 > 1) { ct = ct2; ct2 = sqrt(z * ct2); } else end = true; } else { ct = ct2; ct2 = pow(k, -1. / a); } w = w2; w2 = W(ct2); } if (!end) return false; } return true; }
static Setup draw(Case &c, bool list = false) {
  Setup s; Cfg &g = s.g; s.np = c.pick<int>({1, 1, 2, 1, 2}); s.threads = c.pick<int>({1, 2}); g.type = c.pick<FieldType>({FIELD_SAXION, FIELD_AXION}); g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); g.n = c.pick<int>({8, 16, 24}); g.Ng = c.pick<int>({1, 2, 1, 3}); int lz = c.range(g.Ng, 8); if (lz * s.np < 2) lz = 2; g.nz = lz * s.np;
  if (g.type == FIELD_SAXION && c.chance(1, 5)) g.lowmem = true; g.L = c.pick<double>({4, 2, 6.5}); g.zi = c.pick<double>({0.5, 1, 2}); g.frw = c.pick<double>({1, 1, 0.5, 2}); g.nqcd = g.nqcdr = c.pick<double>({4, 0, 7}); g.indi3 = c.pick<double>({1, 0.25}); 
  s.args = std::string("") + (g.dp() ? " --prec double" : " --prec single") + " --device cpu --prop rkn4 --lap " + std::to_string(g.Ng) + (g.type == FIELD_AXION ? " --ftype axion" : " --ftype saxion") + " --notheta --nologmpi --verbose 0 --fftplan 64 --dump 100000 --p3D 2";
  if (g.lowmem) s.args += " --lowmem"; say1(s.args, " --lsize %g", g.L); say1(s.args, " --frw %g", g.frw); say1(s.args, " --qcd %g", g.nqcd); say1(s.args, " --ind3 %g", g.indi3);
  if (c.flip()) { double msa = c.pick<double>({1, 0.5}); say1(s.args, " --msa %g", msa); g.ltype = LAMBDA_Z2; g.lz2e = 2; g.lambda = msa * msa / (2 * g.L * g.L / (g.n * g.n)); } else { g.lambda = c.pick<double>({8, 40}); say1(s.args, " --llcf %g", g.lambda); g.ltype = LAMBDA_FIXED; g.lz2e = 0; }
  g.pot = (VqcdType)(V_QCD1 | V_PQ1); if (g.type == FIELD_SAXION) switch (c.range(0, 4)) { case 1: s.args += " --N2"; g.pot = (VqcdType)(V_QCD2 | V_PQ1); break; case 2: s.args += " --gam 0.25"; g.gamma = 0.25; g.pot = (VqcdType)(g.pot | V_DAMP_RHO); break; case 3: s.args += " --gamall 0.125"; g.gamma = 0.125; g.pot = (VqcdType)(g.pot | V_DAMP_ALL); break; case 4: s.args += " --onlyrho"; g.pot = (VqcdType)(g.pot | V_EVOL_RHO); break; default: break; } 
  s.adaptive = c.chance(1, 3) || list; s.steps = c.range(3, 7); s.dz = 1. / c.pick<int>({32, 16, 64}); double zf = g.zi + s.steps * s.dz;
  if (c.chance(1, 4)) g.zth = pow(g.zi, g.frw) * 1.0625; if (!starts(g, zf)) { g.zth = 1e8; if (!starts(g, zf)) { g.nqcd = g.nqcdr = 4; s.args += " --qcd 4"; } } say1(s.args, " --Rc %.10g", g.zth); say1(s.args, " --RcOff %.10g", g.zrs);
  if (s.adaptive) { s.args += c.flip() ? " --wDz 0.5" : " --wDz 0.25"; s.args += " --steps 100000"; } return s; }
// box, decomposition, final time
static std::string timing(const Setup &s, int steps) { std::string r = " --size " + std::to_string(s.g.n) + " --depth " + std::to_string(s.g.nz / s.np) + " --zgrid " + std::to_string(s.np); say1(r, " --zf %.17g", s.g.zi + steps * s.dz); if (!s.adaptive) r += " --steps " + std::to_string(steps); return r; }
static void writeStart(Case &c, const Setup &s, Prog &p, int idx) {
  Fld f(s.g); double R = *f.s->RV(); bool cx = f.cplx(); Content km = drawContent(c, cx ? 0.4 * R : 2 * R, cx ? cd(0.6 * R, 0.2 * R) : cd(0), false), kv = drawContent(c, 0.3 * R, 0, false); Grid m = fillGrid(km, s.g.n, s.g.nz, cx, s.g.prec), v = fillGrid(kv, s.g.n, s.g.nz, cx, s.g.prec); scatterM(f, m); scatterV(f, v); Quiet q; zInit = s.g.zi; zFinl = s.g.zi + 1; std::string od = outDir; strcpy(outDir, (p.dir + "/out/m").c_str()); writeConf(f.s, idx); strcpy(outDir, od.c_str()); }
// w0, w1: what distinguishes the two runs; tol: 0 asks for identical fields
// with --onlyrho each step projects v on m, the null steps of the tuner too: their number depends on the shape of the slab and each one rounds
static double slack(const Setup &s) { return s.args.find("--onlyrho") == std::string::npos ? 0 : 3e3 * s.g.eps(); }
static bool same(Case &c, const std::string &a, const std::string &b, const char *what, const char *w0 = "without", const char *w1 = "with interruption", double tol = 0) {
  H5 x(a), y(b); if (!x.ok() || !y.ok()) { c.fail("file", "%s: configuration missing (%d, %d)", what, x.ok(), y.ok()); return false; }
  for (const char *n : {"z", "R", "Size", "Depth", "Axion mass", "Saxion mass", "zInitial", "Frw", "Physical size"}) if (!(x.num("/", n) == y.num("/", n))) { c.fail("attribute", "%s: attribute %s is %.17g %s and %.17g %s", what, n, x.num("/", n), w0, y.num("/", n), w1); return false; }
  for (const char *n : {"nQcd", "nQcd2", "Lambda", "Lambda Z2 exponent", "Gamma", "Indi3", "z Threshold", "z Restore"}) if (!(x.num("/potential", n) == y.num("/potential", n))) { c.fail("attribute", "%s: attribute %s is %.17g %s and %.17g %s", what, n, x.num("/potential", n), w0, y.num("/potential", n), w1); return false; }
  for (const char *n : {"VQcd type", "VPQ type", "Damping type", "Evolution type", "Lambda type"}) if (x.str("/potential", n) != y.str("/potential", n)) { c.fail("attribute", "%s: attribute %s is %s %s and %s %s", what, n, x.str("/potential", n).c_str(), w0, y.str("/potential", n).c_str(), w1); return false; }
  if (x.str("/", "Field type") != y.str("/", "Field type")) { c.fail("attribute", "%s: field type %s and %s", what, x.str("/", "Field type").c_str(), y.str("/", "Field type").c_str()); return false; }
  for (const char *n : {"/m", "/v"}) { auto p = x.data(n), q = y.data(n); if (p.size() != q.size() || p.empty()) { c.fail("size", "%s: %s has %zu and %zu elements", what, n, p.size(), q.size()); return false; } double sc = 0; for (double e : p) if (std::isfinite(e)) sc = std::max(sc, fabs(e)); for (size_t i = 0; i < p.size(); i++) if (!(p[i] == q[i]) && !(std::isnan(p[i]) && std::isnan(q[i])) && !(fabs(p[i] - q[i]) <= tol * sc)) { c.fail("final field", "%s: element %zu of %s is %.17g %s and %.17g %s", what, i, n, p[i], w0, q[i], w1); return false; } }
  return true; }
static bool ran(Case &c, Prog &p, const char *what, bool end = true) { if (p.rc || (end && p.log.find("EVOLUTION FINISHED") == std::string::npos)) { c.fail("run", "%s: exit status %d, %s", what, p.rc, p.tail().c_str()); return false; } return true; }
static void keepGlobals(std::function<void()> f) { double a = zInit, b = zFinl; int k = fIndex; bool lm = lowmem; f(); zInit = a; zFinl = b; fIndex = k; lowmem = lm; }
