// C22: an interrupted run that is restarted ends where the uninterrupted one does
#include "runs.h"
// plan of interruptions: after so many looks for ./stop in each leg (the first look is made while reading the command line)
static std::vector<double> restarts;   // times at which the last interrupted run was restarted
static int interrupted(Case &c, Prog &p, const Setup &s, const std::string &args, int idx, std::vector<int> stops, bool wall) {
  restarts.clear(); int done = 0; std::string first = args + " --index " + std::to_string(idx);
  for (size_t i = 0; i <= stops.size(); i++) { std::string a = (i == 0 ? first : args + " --restart"); bool stop = i < stops.size(); if (stop && wall && i == 0) { p.run("vaxions", s.np, s.threads, a + " --wTime 0.000000001"); } else p.run("vaxions", s.np, s.threads, a, stop ? stops[i] + 1 : 0);
    if (!ran(c, p, i ? "restarted run" : "interrupted run", false)) return -1; if (p.log.find("EVOLUTION FINISHED") != std::string::npos) return done; if (!stop) { c.fail("run", "the restarted run did not end: %s", p.tail().c_str()); return -1; } if (!p.has("out/m/axion.restart")) { c.fail("restart file", "interrupted without a restart file: %s", p.tail().c_str()); return -1; } done++; restarts.push_back(H5(p.dir + "/out/m/axion.restart").num("/", "z")); }
  return done; }
LAW(C22, restart, 48, 2600, NP1) { keepGlobals([&] {
  Setup s = draw(c); int idx = c.range(0, 3); Prog a, b; std::vector<int> st; int k = c.range(1, 3), left = s.steps; for (int i = 0; i < k && left > 1; i++) { int q = c.range(1, left - 1); st.push_back(q); left -= q; } bool wall = c.chance(1, 4); if (wall && st.size()) st[0] = 1;
  std::string args = s.args + timing(s, s.steps); std::string h; for (int q : st) h += " " + std::to_string(q); c.say("%s np=%d threads=%d steps=%d dz=%g adaptive=%d interruptions after%s%s: %s", s.g.str().c_str(), s.np, s.threads, s.steps, s.dz, s.adaptive, h.c_str(), wall ? " (first by wall time)" : "", args.c_str());
  writeStart(c, s, a, idx); link(a.conf(idx).c_str(), b.conf(idx).c_str()); a.run("vaxions", s.np, s.threads, args + " --index " + std::to_string(idx)); if (!ran(c, a, "uninterrupted run")) return; int d = interrupted(c, b, s, args, idx, st, wall); if (d < 0) return;
  if (a.last() <= idx || b.last() <= idx) { c.fail("output", "no final configuration (last %d and %d)", a.last(), b.last()); return; } same(c, a.conf(a.last()), b.conf(b.last()), "final configuration", "without", "with interruption", slack(s)); c.nontrivial = d > 0; c.label("interruptions: " + std::to_string(d)); }); }
// two legs: run to an intermediate time, read the configuration it printed and go on
LAW(C22, resume, 40, 2000, NP1) { keepGlobals([&] {
  Setup s = draw(c); int idx = c.range(0, 2), k = c.range(1, s.steps - 1); Prog a, b; c.say("%s np=%d threads=%d steps=%d dz=%g adaptive=%d configuration read after %d: %s", s.g.str().c_str(), s.np, s.threads, s.steps, s.dz, s.adaptive, k, s.args.c_str());
  writeStart(c, s, a, idx); link(a.conf(idx).c_str(), b.conf(idx).c_str()); a.run("vaxions", s.np, s.threads, s.args + timing(s, s.steps) + " --index " + std::to_string(idx)); if (!ran(c, a, "uninterrupted run")) return;
  b.run("vaxions", s.np, s.threads, s.args + timing(s, k) + " --index " + std::to_string(idx)); if (!ran(c, b, "first leg")) return; int j = b.last(); if (j <= idx) { c.fail("output", "no configuration printed by the first leg"); return; } if (H5(b.conf(j)).num("/", "z") >= s.g.zi + s.steps * s.dz - 1e-12) { c.discarded = true; return; }   /* one step went beyond both end times */ b.run("vaxions", s.np, s.threads, s.args + timing(s, s.steps) + " --index " + std::to_string(j)); if (!ran(c, b, "second leg")) return;
  same(c, a.conf(a.last()), b.conf(b.last()), "final configuration", "without", "with interruption", slack(s)); c.nontrivial = true; c.label(s.adaptive ? "adaptive step" : "fixed step"); }); }
static bool timeKey(const std::string &k) { for (const char *w : {"time", "Time", "step", "Step"}) if (k.find(w) != std::string::npos) return true; return false; }
// measurements at the times of a list, with and without interruptions
LAW(C22, measurements, 40, 2200, NP1) { keepGlobals([&] {
  Setup s = draw(c, true); int idx = c.range(0, 2); Prog a, b; std::vector<int> q; int m = c.range(2, 6), tot = 4 * s.steps; for (int i = 0; i < m; i++) q.push_back(c.range(1, tot)); std::sort(q.begin(), q.end()); q.erase(std::unique(q.begin(), q.end()), q.end()); if (s.g.lowmem && c.flip()) ;
  std::string list = "ct meas\n", show; for (int x : q) { char t[80]; int me = c.pick<int>({256, 288, 1, 15}); if (s.g.lowmem) me = 256; snprintf(t, sizeof t, "%.9g %d\n", s.g.zi + x * s.dz / 4, me); list += t; snprintf(t, sizeof t, " %.9g(%d)", s.g.zi + x * s.dz / 4, me); show += t; }
  std::vector<int> st; int k = c.range(1, 3), left = s.steps + (int)q.size(); for (int i = 0; i < k && left > 1; i++) { int u = c.range(1, std::min(left - 1, 4)); st.push_back(u); left -= u; } std::string h; for (int u : st) h += " " + std::to_string(u);
  std::string args = s.args + timing(s, s.steps); c.say("%s np=%d threads=1 steps=%d dz=%g adaptive=%d measurements at%s interruptions after%s", s.g.str().c_str(), s.np, s.steps, s.dz, s.adaptive, show.c_str(), h.c_str()); s.threads = 1;
  for (Prog *p : {&a, &b}) { FILE *f = fopen((p->dir + "/measfile.dat").c_str(), "w"); fputs(list.c_str(), f); fclose(f); } writeStart(c, s, a, idx); link(a.conf(idx).c_str(), b.conf(idx).c_str());
  a.run("vaxions", s.np, 1, args + " --index " + std::to_string(idx)); if (!ran(c, a, "uninterrupted run")) return; int d = interrupted(c, b, s, args, idx, st, false); if (d < 0) return; 
  auto A = a.list("out/m", "axion.m."), B = b.list("out/m", "axion.m."); auto J = [](const std::vector<std::string> &v) { std::string o; for (auto &x : v) o += x.substr(7) + " "; return o; };
  // the oracle of the uninterrupted run: the initial time, every time of the list
  { std::vector<double> t; for (auto &n : A) t.push_back(H5(a.dir + "/out/m/" + n).num("/", "z")); std::vector<double> w{s.g.zi}; for (int x : q) w.push_back(s.g.zi + x * s.dz / 4); bool bad = t.size() != w.size(); for (size_t i = 0; !bad && i < t.size(); i++) bad = !(fabs(t[i] - w[i]) < 1e-9 || (s.g.zi == w[0] && fabs(t[i] - w[i]) < 1e-9)); if (bad) { std::string x, y; for (double z : t) say1(x, " %.9g", z); for (double z : w) say1(y, " %.9g", z); c.fail("schedule", "measured at%s instead of%s", x.c_str(), y.c_str()); return; } }
  { // known defect: restarted at a time of the list, that time is measured again and following ones may be skipped
    std::vector<double> tb, w{s.g.zi}; for (auto &n : B) tb.push_back(H5(b.dir + "/out/m/" + n).num("/", "z")); for (int x : q) w.push_back(s.g.zi + x * s.dz / 4); size_t pos = 0; bool dev = false, ok = true; auto is = [&](size_t k, double t) { return k < w.size() && fabs(t - w[k]) < 1e-9; }; auto after = [&]() { for (double z : restarts) if (pos > 1 && is(pos - 1, z)) return true; return false; };
    for (double t : tb) { if (is(pos, t)) { pos++; continue; } dev = true; size_t k = pos; while (k < w.size() && !is(k, t)) k++; if (!after() || (k == w.size() && !is(pos - 1, t))) { ok = false; break; } if (k < w.size()) pos = k + 1; } if (ok && pos < w.size()) { dev = true; ok = after(); }
    if (dev && ok) { c.fail("restart-at-measurement", "%zu measurements instead of %zu after restarts at the time of a measurement", tb.size(), w.size()); return; } }
  if (A != B) { std::string x; for (auto &n : B) say1(x, " %.12g", H5(b.dir + "/out/m/" + n).num("/", "z")); c.fail("files", "measurement files %sinstead of %s(times%s)", J(B).c_str(), J(A).c_str(), x.c_str()); return; }
  for (auto &n : A) { H5All x(a.dir + "/out/m/" + n), y(b.dir + "/out/m/" + n); for (auto &e : x.num) { if (timeKey(e.first)) continue; auto i = y.num.find(e.first); if (i == y.num.end() || i->second.size() != e.second.size()) { c.fail("measurement", "%s: %s differs in presence or size", n.c_str(), e.first.c_str()); return; } for (size_t j = 0; j < e.second.size(); j++) if (!(e.second[j] == i->second[j]) && !(std::isnan(e.second[j]) && std::isnan(i->second[j]))) { c.fail("measurement", "%s: %s [%zu] is %.17g without and %.17g with interruption", n.c_str(), e.first.c_str(), j, e.second[j], i->second[j]); return; } } }
  c.nontrivial = d > 0 && A.size() > 2; c.label("interruptions: " + std::to_string(d)); }); }
// the smallest example of a run that never starts (search for the time at which domain walls disappear): both masses constant
LAW(C22, constant_masses, 1, 1, NP1) { keepGlobals([&] {
  Setup s = draw(c); s.np = 1; Cfg &g = s.g; g.type = FIELD_SAXION; g.lowmem = false; g.prec = FIELD_SINGLE; g.n = 8; g.nz = 4; g.Ng = 1; g.zi = 1; g.L = 4; g.nqcd = g.nqcdr = 0; g.lambda = 8; g.pot = (VqcdType)(V_QCD1 | V_PQ1); g.ltype = LAMBDA_FIXED; g.lz2e = 0; g.gamma = 0; g.indi3 = 1; g.frw = 1; g.zth = 1e8; Prog a; writeStart(c, s, a, 0); s.adaptive = false; s.dz = 0.01; c.nontrivial = true;
  a.run("vaxions", 1, 1, "--prec single --device cpu --prop rkn4 --lap 1 --ftype saxion --notheta --nologmpi --verbose 0 --fftplan 64 --dump 100000 --p3D 2 --lsize 4 --qcd 0 --llcf 8 --index 0" + timing(s, 2), 0, 8); c.say("both masses constant, exit status %d", a.rc); if (a.rc == 124) c.fail("hang", "no step within 8 s"); else ran(c, a, "run"); }); }
