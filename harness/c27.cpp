// C27: the command line sets exactly the requested parameters.
// A server process is forked while the globals of the library still have their initial values; it forks once per case, so that
// each command line is read by a pristine program: parseDims, parseArgs, createCosmos, then the resulting parameters are written
// out. The model is the documented table of options below.
#include "pbt.h"
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include "utils/parse.h"
#include "utils/logger.h"
using namespace pbt;
typedef std::map<std::string, std::string> State;
typedef std::vector<std::string> Args;

static std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
static std::string num(long x) { return std::to_string(x); }
static std::string num(int x) { return std::to_string(x); }
static std::string num(bool x) { return x ? "1" : "0"; }

static void dumpState(FILE *f, Cosmos &k) {
#define D(key, v) fprintf(f, "%s %.17g\n", key, (double)(v))
  D("size", sizeN); D("depth", sizeZ); D("zgrid", zGrid); D("steps", nSteps); D("dump", dump); D("index", fIndex); D("wDz", wDz); D("zf", zFinl); D("zinit", zInit);
  D("lowmem", lowmem); D("prec", sPrec); D("device", cDev); D("prop", pType); D("fftplan", fftplanType); D("sst0", safest0); D("dwgam", dwgammo); D("switch2theta", coSwitch2theta);
  D("cax", aMod); D("restart", restart_flag); D("verbose", verb); D("logmpi", logMpi); D("wkb", wkb2z); D("p3Def", endredmap); D("p3Dewkb", endredmapwkb);
  D("pcon", pconfinal); D("pconwkb", pconfinalwkb); D("p3Dstr", p3dstrings); D("ng0calib", ng0calib); D("ftypeG", fTypeP);
  D("walltime", wTime == std::numeric_limits<std::size_t>::max() ? -1.0 : (double)wTime); D("neigh", Nng); D("meas2theta", rho2thetameasType);
  fprintf(f, "name %s\noutdir %s\nwisdir %s\n", outName, outDir, wisDir);
  MeasInfo &m = deninfa; D("m.slice", m.sliceprint); D("m.idx", m.idxprint); D("m.meas", m.measdata); D("m.mask", m.mask); D("m.rmask", m.rmask); D("m.nrt", m.nrt); D("m.nbins", m.nbinsspec); D("m.maty", m.maty);
  D("m.irmask", m.i_rmask); D("m.redmap", m.redmap); D("m.strmeas", m.strmeas); D("m.cpu", m.measCPU); D("m.cummask", m.cummask); D("m.p3D", m.printconf); D("m.maskenergyonly", m.maskenergyonly);
  std::string t; for (double r : m.rmask_tab) t += num(r) + ","; fprintf(f, "m.rmasktab %s\n", t.c_str());
  IcData &i = k.ICData(); D("i.ftype", i.fType); D("i.ng", i.Nghost); D("i.preprop", i.preprop); D("i.icstudy", i.icstudy); D("i.prepcoe", i.prepcoe); D("i.pregam", i.pregammo); D("i.prelz2e", i.prelZ2e); D("i.prevtype", i.prevtype);
  D("i.normcore", i.normcore); D("i.alpha", i.alpha); D("i.siter", i.siter); D("i.kmax", i.kMax); D("i.kcr", i.kcr); D("i.mode0", i.mode0); D("i.beta", i.beta); D("i.zi", i.zi); D("i.logi", i.logi);
  D("i.kick", i.kickalpha); D("i.extrav", i.extrav); D("i.ctype", i.cType); D("i.smvar", i.smvarType); D("i.grav", i.grav); D("i.L1", i.L1_pc); D("i.ghyb", i.grav_hyb); D("i.gsat", i.grav_sat); D("i.pvel", i.part_vel);
  D("c.lsize", k.PhysSize()); D("c.lambda", k.Lambda()); D("c.lz2e", k.LamZ2Exp()); D("c.ind3", k.Indi3()); D("c.gam", k.Gamma()); D("c.qcd", k.QcdExp()); D("c.Rc", k.ZThRes()); D("c.RcOff", k.ZRestore());
  D("c.pot", k.QcdPot()); D("c.frw", k.Frw()); D("c.mink", k.Mink()); D("c.dectime", k.DecTime());
#undef D
}

// --- server -------------------------------------------------------------------------------------------------------------------
static int toSrv = -1, fromSrv = -1;
static bool rdAll(int fd, void *p, size_t n) { char *c = (char *)p; while (n) { ssize_t r = read(fd, c, n); if (r <= 0) return false; c += r; n -= r; } return true; }
static void wrAll(int fd, const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t r = write(fd, c, n); if (r <= 0) return; c += r; n -= r; } }
static void wrStr(int fd, const std::string &s) { uint32_t n = s.size(); wrAll(fd, &n, 4); wrAll(fd, s.data(), n); }
static bool rdStr(int fd, std::string &s) { uint32_t n; if (!rdAll(fd, &n, 4)) return false; s.resize(n); return n == 0 || rdAll(fd, &s[0], n); }
static std::string slurp(int fd) { off_t n = lseek(fd, 0, SEEK_END); std::string s(n, 0); lseek(fd, 0, SEEK_SET); if (n && !rdAll(fd, &s[0], n)) s = ""; return s; }

static void server(int in, int out) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  for (;;) {
    uint32_t n; if (!rdAll(in, &n, 4)) _exit(0);
    Args a(n); for (auto &s : a) if (!rdStr(in, s)) _exit(0);
    std::string dir, env; if (!rdStr(in, dir) || !rdStr(in, env)) _exit(0);
    int fo = memfd_create("out", 0), fs = memfd_create("state", 0); int pid = fork();
    if (!pid) {
      alarm(20); dup2(fo, 1); dup2(fo, 2); if (chdir(dir.c_str())) _exit(99);
      if (env.empty()) unsetenv("AXIONS_OUTPUT"); else setenv("AXIONS_OUTPUT", env.c_str(), 1);
      unsetenv("AXIONS_WISDOM");
      std::vector<char *> v; for (auto &s : a) v.push_back(strdup(s.c_str())); int argc = v.size(); v.push_back(nullptr);
      on_exit([](int st, void *) { fflush(stdout); _exit(st); }, nullptr);
      parseDims(argc, v.data()); parseArgs(argc, v.data()); Cosmos k = createCosmos();
      FILE *f = fdopen(fs, "w"); dumpState(f, k); fflush(f); fflush(stdout); _exit(0); }
    int st = 0; waitpid(pid, &st, 0); int32_t s32 = st; wrAll(out, &s32, 4); wrStr(out, slurp(fo)); wrStr(out, slurp(fs)); close(fo); close(fs);
  }
}
// the harness itself changes these few before it starts MPI
static int fIndex0, zGrid0; static size_t plan0; static std::string wis0, out0;
void preMain() { fIndex0 = fIndex; zGrid0 = zGrid; plan0 = fftplanType; wis0 = wisDir; out0 = outDir; }
void postInit() {
  int a[2], b[2]; if (pipe(a) || pipe(b)) return; fflush(stdout); fflush(stderr);
  if (!fork()) { close(a[1]); close(b[0]); fIndex = fIndex0; zGrid = zGrid0; fftplanType = plan0; strcpy(wisDir, wis0.c_str()); strcpy(outDir, out0.c_str()); server(a[0], b[1]); _exit(0); }
  close(a[0]); close(b[1]); toSrv = a[1]; fromSrv = b[0];
}
static std::string probeDir() { static std::string d; if (d.empty()) { char cw[2048]; if (!getcwd(cw, sizeof cw)) cw[0] = 0; d = std::string(cw) + "/c27-" + std::to_string(getpid()); mkdir(d.c_str(), 0755); } return d; }
struct Res { int status = -1; std::string out; State st; bool exited() const { return WIFEXITED(status); } int code() const { return WIFEXITED(status) ? WEXITSTATUS(status) : -1; } };
static Res ask(const Args &opts, const std::string &env = "") {
  Args a{"vaxion3d"}; a.insert(a.end(), opts.begin(), opts.end()); uint32_t n = a.size(); wrAll(toSrv, &n, 4); for (auto &s : a) wrStr(toSrv, s); wrStr(toSrv, probeDir()); wrStr(toSrv, env);
  Res r; int32_t st; std::string s; if (!rdAll(fromSrv, &st, 4) || !rdStr(fromSrv, r.out) || !rdStr(fromSrv, s)) { fprintf(stderr, "probe server lost\n"); _exit(3); }
  r.status = st; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); std::string l = s.substr(p, e - p); p = e + 1; size_t b = l.find(' '); r.st[l.substr(0, b)] = l.substr(b + 1); }
  return r;
}
static std::string show(const Args &a) { std::string s; for (auto &x : a) s += (s.empty() ? "" : " ") + (x.size() > 100 ? x.substr(0, 8) + "...(" + std::to_string(x.size()) + ")" : x); return s; }
static std::string tail(const std::string &s) { std::string t = s.size() > 160 ? s.substr(s.size() - 160) : s; for (auto &ch : t) if (ch == '\n') ch = ' '; return t; }

// --- model --------------------------------------------------------------------------------------------------------------------
struct Sim {            // the requested run: documented defaults
  State s; std::vector<double> rmask; long meas = 0, maty = 0, prop = 0, spec = 0, lap = -1; double zi = .5, logi = 0, zf = 1, frw = 1, L = 4, lam = 25000, msa = 0, lz2e = 0, Rc = 1000, RcOff = 1e30; long N = 128, pot = V_QCD1, pq = V_PQ1, damp = 0, evol = 0, red = -1, redw = -1;
  bool uLogi = false, uMsa = false, uLam = false, uPot = false, mink = false, nolog = false; std::set<std::string> given;
  Sim() { auto d = [&](const char *k, double v) { s[k] = num(v); };
    d("size", 128); d("depth", 128); d("zgrid", 1); d("steps", 5); d("dump", 100); d("index", -1); d("wDz", .8); d("lowmem", 0); d("prec", FIELD_SINGLE); d("device", DEV_CPU); d("fftplan", 0); d("sst0", 20); d("dwgam", -1); d("switch2theta", 1);
    d("cax", 0); d("restart", 0); d("verbose", VERB_NORMAL); d("wkb", -1); d("pcon", 0); d("pconwkb", 0); d("p3Dstr", 0); d("ng0calib", 1.25); d("ftypeG", FIELD_SAXION); d("walltime", -1); d("neigh", -1); d("meas2theta", 0); s["name"] = "axion"; s["outdir"] = "out/m"; s["wisdir"] = "./";
    d("m.slice", 0); d("m.idx", 0); d("m.mask", SPMASK_NONE); d("m.rmask", 2); d("m.nrt", NRUN_NONE); d("m.nbins", -1); d("m.strmeas", STRMEAS_STRING); d("m.cpu", 0); d("m.cummask", -1); d("m.p3D", 0); d("m.maskenergyonly", 0);
    d("i.ftype", FIELD_SAXION); d("i.ng", 1); d("i.preprop", 0); d("i.icstudy", 0); d("i.prepcoe", 3); d("i.pregam", 0); d("i.prelz2e", 0); d("i.prevtype", V_QCD1_PQ1_RHO); d("i.normcore", 1); d("i.alpha", .143); d("i.siter", 40); d("i.kmax", 2); d("i.kcr", 1); d("i.mode0", 0);
    d("i.beta", 1); d("i.kick", 0); d("i.extrav", 0); d("i.ctype", CONF_KMAX); d("i.smvar", CONF_RAND); d("i.grav", -1); d("i.L1", .036); d("i.ghyb", 0); d("i.gsat", 0); d("i.pvel", 0);
    d("c.ind3", 1); d("c.gam", 0); d("c.qcd", 7); d("c.dectime", -1); d("c.mink", 0); }
  double R(double t) const { return pow(t, frw); }
  // parameters that depend on several options
  void finish() {
    auto d = [&](const char *k, double v) { s[k] = num(v); };
    long pt = prop ? prop : PROP_RKN4; d("prop", pt | (spec ? (long)PROP_SPEC : (long)PROP_BASE));
    d("zf", zf); d("c.frw", frw); d("c.lsize", L); d("size", N);
    d("logmpi", (s["zgrid"] == "1" || nolog) ? ZERO_RANK : ALL_RANKS);
    d("m.meas", meas); d("m.maty", maty); d("c.pot", pot | pq | damp | evol);
    if (RcOff < Rc) { Rc = 1e20; RcOff = 1e20; } d("c.Rc", Rc); d("c.RcOff", RcOff);
    long a = std::min(red, N), b = std::min(redw, N); d("p3Def", a); d("p3Dewkb", b); d("m.redmap", a);
    std::vector<double> r = rmask; std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); d("m.irmask", r.size()); std::string t; for (double x : r) t += num(x) + ","; s["m.rmasktab"] = t; if (!rmask.empty()) d("m.rmask", rmask.back());
    // coupling and start time, left out here when they are derived (see checkDerived)
    if (!uMsa) d("c.lambda", lam); d("c.lz2e", uMsa ? lz2e : 0); if (!uLogi) { d("i.zi", zi); d("zinit", zi); } if (!uMsa) d("i.logi", logi); if (uLogi) d("i.logi", logi);
  }
};
struct Opt { const char *name; const char *group; std::function<void(Case &, Args &, Sim &)> gen; };
static std::string rstr(Case &c, double lo, double hi) { char b[40]; double x = c.logreal(lo, hi); const char *f = c.pick<const char *>({"%.3g", "%.6f", "%.17g", "%.4e"}); snprintf(b, sizeof b, f, x); if (atof(b) == 0) snprintf(b, sizeof b, "%.3g", x); return b; }
static std::string istr(Case &c, long lo, long hi) { return std::to_string(c.range(lo, hi)); }

static const std::vector<Opt> &table() {
  static std::vector<Opt> t; if (!t.empty()) return t;
  auto add = [&](const char *n, const char *g, std::function<void(Case &, Args &, Sim &)> f) { t.push_back({n, g, f}); };
  auto flag = [&](const char *n, const char *key, double v, const char *g = "") { std::string k = key; add(n, g, [k, v](Case &, Args &, Sim &m) { m.s[k] = num(v); }); };
  auto real = [&](const char *n, const char *key, double lo, double hi, const char *g = "") { std::string k = key; add(n, g, [k, lo, hi](Case &c, Args &a, Sim &m) { a.push_back(rstr(c, lo, hi)); m.s[k] = num(atof(a.back().c_str())); }); };
  auto sreal = [&](const char *n, const char *key, double lo, double hi) { std::string k = key; add(n, "", [k, lo, hi](Case &c, Args &a, Sim &m) { std::string v = rstr(c, lo, hi); if (c.flip()) v = "-" + v; a.push_back(v); m.s[k] = num(atof(v.c_str())); }); };
  auto integ = [&](const char *n, const char *key, long lo, long hi, const char *g = "") { std::string k = key; add(n, g, [k, lo, hi](Case &c, Args &a, Sim &m) { a.push_back(istr(c, lo, hi)); m.s[k] = num((double)atol(a.back().c_str())); }); };
  typedef std::vector<std::pair<const char *, long>> KV;
  auto word = [&](const char *n, const char *key, KV kv, const char *key2 = nullptr) { std::string k = key, k2 = key2 ? key2 : ""; add(n, "", [k, k2, kv](Case &c, Args &a, Sim &m) { auto &p = kv[c.draw(kv.size())]; a.push_back(p.first); m.s[k] = num((double)p.second); if (!k2.empty()) m.s[k2] = num((double)p.second); }); };
  auto setd = [&](const char *n, double Sim::*p, double lo, double hi) { add(n, "", [p, lo, hi](Case &c, Args &a, Sim &m) { a.push_back(rstr(c, lo, hi)); m.*p = atof(a.back().c_str()); }); };
  add("--size", "", [](Case &c, Args &a, Sim &m) { a.push_back(istr(c, 2, 2048)); m.N = atol(a.back().c_str()); });
  integ("--depth", "depth", 1, 2048); integ("--zgrid", "zgrid", 1, 16); flag("--lowmem", "lowmem", 1);
  word("--prec", "prec", {{"double", FIELD_DOUBLE}, {"single", FIELD_SINGLE}}); word("--device", "device", {{"cpu", DEV_CPU}, {"gpu", DEV_GPU}});
  add("--prop", "", [](Case &c, Args &a, Sim &m) { KV kv{{"leap", PROP_LEAP}, {"rkn4", PROP_RKN4}, {"om2", PROP_OMELYAN2}, {"om4", PROP_OMELYAN4}}; auto &p = kv[c.draw(4)]; a.push_back(p.first); m.prop = p.second; });
  integ("--steps", "steps", 0, 1000000); add("--spec", "lap", [](Case &, Args &, Sim &m) { m.spec = 1; });
  add("--lap", "lap", [](Case &c, Args &a, Sim &m) { a.push_back(istr(c, 1, 5)); m.s["i.ng"] = m.s["neigh"] = num((double)atol(a.back().c_str())); });
  real("--wDz", "wDz", .01, 10); flag("--restart", "restart", 1); word("--fftplan", "fftplan", {{"64", 64}, {"0", 0}, {"32", 32}, {"8", 8}}); integ("--sst0", "sst0", 0, 1000); real("--dwgam", "dwgam", .01, 10); flag("--notheta", "switch2theta", 0);
  word("--ftype", "i.ftype", {{"saxion", FIELD_SAXION}, {"axion", FIELD_AXION}}, "ftypeG");
  add("--mink", "frw", [](Case &, Args &, Sim &m) { m.frw = 0; m.mink = true; m.s["c.mink"] = "1"; });
  add("--frw", "frw", [](Case &c, Args &a, Sim &m) { a.push_back(rstr(c, .1, 2.5)); m.frw = atof(a.back().c_str()); }); flag("--cax", "cax", 1);
  setd("--zi", &Sim::zi, .01, 4); setd("--zf", &Sim::zf, 4, 40);
  setd("--Rc", &Sim::Rc, .1, 1e5); setd("--RcOff", &Sim::RcOff, .1, 1e6); setd("--lsize", &Sim::L, .1, 100); real("--qcd", "c.qcd", .1, 12);
  add("--llcf", "coupling", [](Case &c, Args &a, Sim &m) { a.push_back(rstr(c, 1, 1e7)); m.lam = atof(a.back().c_str()); m.uLam = true; });
  add("--msa", "coupling", [](Case &c, Args &a, Sim &m) { a.push_back(rstr(c, .1, 4)); m.msa = atof(a.back().c_str()); m.uMsa = true; if (!m.given.count("--lz2e")) m.lz2e = 2; });
  add("--lz2e", "lz2e", [](Case &c, Args &a, Sim &m) { a.push_back(c.flip() ? rstr(c, .1, 3.5) : c.pick<const char *>({"0", "2", "1", "0.0"})); m.lz2e = atof(a.back().c_str()); });
  add("--logi", "", [](Case &c, Args &a, Sim &m) { std::string v = rstr(c, .05, 8); if (c.chance(1, 4)) v = "-" + v; a.push_back(v); m.logi = atof(v.c_str()); m.uLogi = true; });
  real("--ind3", "c.ind3", .01, 100, "mass");
  add("--vqcdC", "mass", [](Case &, Args &, Sim &m) { m.pot = V_QCDC; m.uPot = true; }); add("--vqcdV", "mass", [](Case &, Args &, Sim &m) { m.pot = V_QCDV; m.uPot = true; });
  add("--vqcd0", "mass", [](Case &, Args &, Sim &m) { m.pot = V_QCD0; m.s["c.ind3"] = "0"; m.uPot = true; }); add("--N2", "mass", [](Case &, Args &, Sim &m) { m.pot = V_QCD2; m.uPot = true; });
  add("--ind3", "mass", [](Case &c, Args &a, Sim &m) { a.push_back(c.pick<const char *>({"0", "0.0"})); m.pot = V_QCD0; m.s["c.ind3"] = "0"; });
  add("--vPQ2", "pq", [](Case &, Args &, Sim &m) { m.pq = V_PQ2; m.uPot = true; });
  add("--onlyrho", "evol", [](Case &, Args &, Sim &m) { m.evol = V_EVOL_RHO; m.uPot = true; }); add("--onlytheta", "evol", [](Case &, Args &, Sim &m) { m.evol = V_EVOL_THETA; m.uPot = true; });
  add("--gam", "gam", [](Case &c, Args &a, Sim &m) { a.push_back(rstr(c, .01, 10)); m.s["c.gam"] = num(atof(a.back().c_str())); m.damp = V_DAMP_RHO; m.uPot = true; });
  word("--ctype", "i.ctype", {{"smooth", CONF_SMOOTH}, {"kmax", CONF_KMAX}, {"vilgor", CONF_VILGOR}, {"vilgork", CONF_VILGORK}, {"vilgors", CONF_VILGORS}, {"tkachev", CONF_TKACHEV}, {"thermal", CONF_THERMAL}, {"lola", CONF_LOLA}, {"cole", CONF_COLE}});
  word("--smvar", "i.smvar", {{"stXY", CONF_STRINGXY}, {"stYZ", CONF_STRINGYZ}, {"mc0", CONF_MINICLUSTER0}, {"mc", CONF_MINICLUSTER}, {"axnoise", CONF_AXNOISE}, {"saxnoise", CONF_SAXNOISE}, {"ax1mode", CONF_AX1MODE}, {"parres", CONF_PARRES}, {"stringwave", CONF_STRWAVE}, {"axiton", CONF_AXITON}});
  integ("--kmax", "i.kmax", 0, 1024); real("--kcr", "i.kcr", .001, 100); sreal("--mode0", "i.mode0", .01, 10); integ("--sIter", "i.siter", 0, 500); real("--alpha", "i.alpha", .001, 1); flag("--nncore", "i.normcore", 0);
  add("--wkb", "", [](Case &c, Args &a, Sim &m) { a.push_back(rstr(c, 41, 1000)); m.s["wkb"] = num(atof(a.back().c_str())); });
  sreal("--kickalpha", "i.kick", .01, 3); sreal("--extrav", "i.extrav", .01, 3); flag("--preprop", "i.preprop", 1); real("--prepcoe", "i.prepcoe", 1.1, 20); integ("--prevqcdtype", "i.prevtype", 1, 70000); real("--pregam", "i.pregam", .01, 10); real("--prelz2e", "i.prelz2e", .1, 4); flag("--icstudy", "i.icstudy", 1);
  sreal("--beta", "i.beta", .01, 10); real("--gravity", "i.grav", .001, 10); flag("--sat_gravity", "i.gsat", 1); flag("--hybrid_gravity", "i.ghyb", 1); real("--L1_pc", "i.L1", .001, 1); flag("--part_vel", "i.pvel", 1);
  add("--name", "", [](Case &c, Args &a, Sim &m) { std::string s; long n = c.chance(1, 4) ? c.range(1, 96) : c.range(1, 12); for (long i = 0; i < n; i++) s += "abcdefgXYZ019_.+"[c.draw(16)]; if (s[0] == '+') s[0] = 'q'; a.push_back(s); m.s["name"] = s; });
  integ("--dump", "dump", 0, 100000); add("--meas", "", [](Case &c, Args &a, Sim &m) { long v = c.flip() ? (1L << c.range(0, 19)) : c.range(0, (1 << 20) - 1); a.push_back(std::to_string(v)); m.meas |= v; });
  add("--meas2theta", "", [](Case &c, Args &a, Sim &m) { long v = c.range(0, (1 << 20) - 1); a.push_back(std::to_string(v)); m.s["meas2theta"] = num((double)v); });
  word("--p3D", "m.p3D", {{"0", 0}, {"1", 1}, {"2", 2}, {"3", 3}, {"4", 4}, {"32", 32}}); add("--wTime", "", [](Case &c, Args &a, Sim &m) { a.push_back(rstr(c, .01, 100)); m.s["walltime"] = num((double)(size_t)(atof(a.back().c_str()) * 3600e6)); });
  auto map = [&](const char *n, long bit) { add(n, "", [bit](Case &, Args &, Sim &m) { m.meas |= MEAS_2DMAP; m.maty |= bit; }); };
  map("--p2Dmap", MAPT_XYMV); map("--p2DmapYZ", MAPT_YZMV); map("--p2DmapE", MAPT_XYE); map("--p2DmapPE", MAPT_XYPE); map("--p2DmapPE2", MAPT_XYPE2);
  add("--p2Dslice", "", [](Case &c, Args &a, Sim &m) { a.push_back(istr(c, 0, 127)); m.meas |= MEAS_2DMAP; m.maty |= MAPT_XYMV; m.s["m.slice"] = num((double)atol(a.back().c_str())); }); flag("--p3Dstr", "p3Dstr", 1);
  add("--p3Def", "", [](Case &c, Args &a, Sim &m) { if (c.chance(2, 3)) { a.push_back(istr(c, 1, 2048)); m.red = atol(a.back().c_str()); } else m.s["pcon"] = "1"; });
  add("--p3Dewkb", "", [](Case &c, Args &a, Sim &m) { if (c.chance(2, 3)) { a.push_back(istr(c, 1, 2048)); m.redw = atol(a.back().c_str()); } else m.s["pconwkb"] = "1"; });
  integ("--verbose", "verbose", 0, 3); add("--nologmpi", "", [](Case &, Args &, Sim &m) { m.nolog = true; });
  integ("--spKGV", "m.nrt", 1, 7); integ("--spmask", "m.mask", 0, 2047); add("--printmask", "", [](Case &, Args &, Sim &m) { m.meas |= MEAS_MASK; }); flag("--maskenergyonly", "m.maskenergyonly", 1);
  add("--rmask", "multi", [](Case &c, Args &a, Sim &m) { a.push_back(c.flip() ? rstr(c, .1, 10) : istr(c, 1, 5)); m.rmask.push_back(atof(a.back().c_str())); });
  add("--rmask", "multi", [](Case &c, Args &a, Sim &m) { a.push_back(c.flip() ? rstr(c, .1, 10) : istr(c, 1, 5)); m.rmask.push_back(atof(a.back().c_str())); });
  sreal("--ng0calib", "ng0calib", .1, 5); integ("--cummask", "m.cummask", 1, 10); integ("--strmeas", "m.strmeas", 0, 7); integ("--nbinsspec", "m.nbins", 1, 1000); flag("--measCPU", "m.cpu", 1); integ("--idxprint", "m.idx", 0, 1000000);
  return t;
}
// a random set of compatible options in random order; groups of contradictory options contribute at most one
struct Line { Args a; std::vector<Args> parts; Sim m; };
static Line drawLine(Case &c, int want, const std::set<std::string> &force = {}, const std::set<std::string> &avoid = {}) {
  auto &T = table(); Line l; std::vector<int> idx; std::set<std::string> used, names; int n = T.size();
  for (int i = 0; i < n; i++) { std::string g = T[i].group, nm = T[i].name; bool f = force.count(nm); if (!f && (avoid.count(nm) || !c.chance(want, n))) continue; if (nm == "--lz2e" && !force.count("--msa")) continue; if (!f && g == "coupling" && force.count("--msa")) continue; if (!f && g == "lap" && used.count("lap")) continue;
    if (!g.empty() && g != "multi" && used.count(g)) continue; if (names.count(nm) && g != "multi") continue; if (!g.empty()) used.insert(g); names.insert(nm); idx.push_back(i); }
  for (int i = (int)idx.size() - 1; i > 0; i--) std::swap(idx[i], idx[c.draw(i + 1)]);
  l.m.given = names; for (int i : idx) { Args p{T[i].name}; T[i].gen(c, p, l.m); l.parts.push_back(p); }
  // an option whose argument is optional must not be followed by a number (it never is: options follow)
  for (auto &p : l.parts) l.a.insert(l.a.end(), p.begin(), p.end());
  l.m.finish(); return l;
}
static void compare(Case &c, const Res &r, const State &want, const char *sig) {
  for (auto &kv : want) { auto it = r.st.find(kv.first); if (it == r.st.end()) { c.fail("probe", "no value of %s", kv.first.c_str()); continue; } c.check(it->second == kv.second, std::string(sig) + "-" + kv.first, "%s is %s instead of %s", kv.first.c_str(), it->second.c_str(), kv.second.c_str()); }
}
static double val(const Res &r, const char *k) { auto it = r.st.find(k); return it == r.st.end() ? NAN : atof(it->second.c_str()); }
// documented relations between coupling, core size, start time and logarithm
static void checkDerived(Case &c, const Res &r, const Sim &m) {
  double lam = val(r, "c.lambda"), zi = val(r, "i.zi"), logi = val(r, "i.logi"), lz = m.uMsa ? m.lz2e : 0; auto close = [&](double a, double b, const char *sig, const char *what) { c.check(std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)), sig, "%s: %.15g instead of %.15g (lambda %g zi %g logi %g)", what, a, b, lam, zi, logi); };
  if (m.uMsa) { double t = lz <= 2 ? m.zf : zi; close(log(sqrt(2 * lam / pow(m.R(t), lz)) * m.R(t) * m.L / m.N), log(m.msa), "msa", "log of the saxion mass times the lattice spacing at the reference time"); }
  if (m.uMsa || m.uLogi) close(log(sqrt(2 * lam / pow(m.R(zi), lz)) * m.R(zi) * zi), logi, "logi", "log of saxion mass times horizon at the start");
  close(val(r, "zinit"), zi, "zinit", "start time of the run");
}
static std::string why(const Res &r) { char b[64]; if (r.exited()) snprintf(b, sizeof b, "exit status %d", r.code()); else snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(r.status)); return std::string(b) + ": " + tail(r.out); }

LAW(C27, options, 4000, 60000, NP1) {
  bool msa = c.chance(1, 3); std::set<std::string> f; if (msa) { f.insert("--msa"); if (c.flip()) f.insert("--lz2e"); if (c.flip()) f.insert("--logi"); }
  Line l = drawLine(c, c.pick({2, 6, 12, 30}), f); c.say("%s", show(l.a).c_str()); c.nontrivial = l.parts.size() >= 2; if (msa) c.label("msa");
  Res r = ask(l.a); if (!c.check(r.code() == 0, "refused", "valid command line refused: %s", why(r).c_str())) return;
  compare(c, r, l.m.s, "value"); checkDerived(c, r, l.m);
  // order: the same options in another order give the same parameters (options that may be repeated keep their relative order)
  std::vector<int> o; for (size_t i = 0; i < l.parts.size(); i++) o.push_back(i); for (int i = (int)o.size() - 1; i > 0; i--) std::swap(o[i], o[c.draw(i + 1)]);
  { std::vector<size_t> pos; std::vector<int> ids; for (size_t i = 0; i < o.size(); i++) if (l.parts[o[i]][0] == "--rmask") { pos.push_back(i); ids.push_back(o[i]); } std::sort(ids.begin(), ids.end()); for (size_t i = 0; i < pos.size(); i++) o[pos[i]] = ids[i]; }
  Args a; for (int i : o) a.insert(a.end(), l.parts[i].begin(), l.parts[i].end());
  Res q = ask(a); if (!c.check(q.code() == 0, "order-refused", "reordered command line refused: %s [%s]", why(q).c_str(), show(a).c_str())) return;
  for (auto &kv : r.st) c.check(q.st[kv.first] == kv.second, "order-" + kv.first, "%s is %s, and %s after reordering to [%s]", kv.first.c_str(), kv.second.c_str(), q.st[kv.first].c_str(), show(a).c_str());
}

LAW(C27, reject, 4000, 60000, NP1) {
  struct Bad { Args a; std::set<std::string> avoid; bool atEnd; };
  static std::vector<Bad> B; static std::vector<std::string> valued{"--size", "--depth", "--zgrid", "--device", "--verbose", "--ftype", "--frw", "--p2Dslice", "--p2DsliceYZ", "--sliceprint", "--idxprint", "--wTime", "--kcr", "--alpha", "--wkb", "--pregam", "--prelz2e", "--prevqcdtype", "--dwgam", "--gam", "--beta", "--gravity", "--L1_pc", "--zi", "--logi", "--kickalpha", "--extrav", "--zf", "--lsize", "--llcf", "--Rc", "--RcOff", "--msa", "--lz2e", "--ind3", "--wDz", "--mode0", "--qcd", "--steps", "--sst0", "--dump", "--meas", "--meas2theta", "--spmask", "--spKGV", "--fftplan", "--rmask", "--nbinsspec", "--strmeas", "--name", "--kmax", "--sIter", "--index", "--ctype", "--smvar", "--prec", "--prop", "--prepcoe", "--ng0calib", "--cummask", "--lap"};
  int kind = c.draw(3); Line l; Args a; std::string o;
  static const std::vector<std::pair<std::string, std::vector<std::string>>> inv{
    {"--size", {"1", "0", "-4", "-1"}}, {"--zgrid", {"0", "-1"}}, {"--device", {"tpu", "CPU", ""}}, {"--prec", {"quad", "Double"}}, {"--prop", {"euler", "rkn5"}}, {"--ctype", {"flat", "Kmax"}}, {"--smvar", {"st", "mc1"}}, {"--ftype", {"boson"}}, {"--zi", {"-1", "-0.001"}}, {"--zf", {"-1", "-2.5"}}, {"--Rc", {"0", "-1"}}, {"--RcOff", {"0", "-2"}},
    {"--lsize", {"0", "-3.5", "0.0"}}, {"--qcd", {"-1", "-0.5"}}, {"--llcf", {"0", "-1"}}, {"--msa", {"0", "-1"}}, {"--ind3", {"-1", "-0.25"}}, {"--gam", {"-1"}}, {"--dwgam", {"-0.5"}}, {"--pregam", {"-0.1"}}, {"--alpha", {"-0.1", "1.1", "2"}}, {"--kcr", {"-1", "-0.5"}}, {"--index", {"-1"}}, {"--dump", {"-1", "-100"}}, {"--steps", {"-1"}},
    {"--meas", {"-1", "-7"}}, {"--meas2theta", {"-1"}}, {"--wTime", {"-1"}}, {"--lap", {"-1", "6", "9"}}, {"--spmask", {"-1", "-8"}}, {"--spKGV", {"-1", "-7"}}, {"--strmeas", {"-1", "-4"}}, {"--kmax", {"-1", "-12"}}, {"--sIter", {"-1", "-40"}}, {"--prepcoe", {"1", "0.5", "-2"}}, {"--wDz", {"0", "-1"}}, {"--fA", {"-1"}}, {"--name", {std::string(97, 'n'), std::string(300, 'n')}}, {"--nosuchoption", {"1"}}, {"-size", {"16"}}, {"stray", {"value"}}};
  std::string what;
  if (kind == 0) { auto &p = inv[c.draw(inv.size())]; std::string v = p.second[c.draw(p.second.size())]; o = p.first; l = drawLine(c, c.pick({0, 2, 8}), {}, {o, "--p3Def", "--p3Dewkb", "--lap", "--spec"}); size_t at = c.draw(l.parts.size() + 1); for (size_t i = 0; i <= l.parts.size(); i++) { if (i == at) { a.push_back(o); a.push_back(v); } if (i < l.parts.size()) a.insert(a.end(), l.parts[i].begin(), l.parts[i].end()); } what = "value"; }
  else if (kind == 1) { o = valued[c.draw(valued.size())]; l = drawLine(c, c.pick({0, 2, 8}), {}, {o}); a = l.a; a.push_back(o); what = "missing"; }
  else { int w = c.draw(3); what = "conflict"; if (w == 0) { o = "--spec+--lap"; l = drawLine(c, 3, {}, {"--spec", "--lap"}); Args x{"--spec"}, y{"--lap", istr(c, 1, 5)}; if (c.flip()) std::swap(x, y); a = x; a.insert(a.end(), l.a.begin(), l.a.end()); a.insert(a.end(), y.begin(), y.end()); }
    else if (w == 1) { o = "--wkb<--zf"; l = drawLine(c, 3, {}, {"--wkb", "--zf"}); double zf = c.real(2, 20); char b[40]; snprintf(b, 40, "%.6g", zf); Args x{"--zf", b}; snprintf(b, 40, "%.6g", zf * c.real(.05, .95)); Args y{"--wkb", b}; if (c.flip()) std::swap(x, y); a = x; a.insert(a.end(), l.a.begin(), l.a.end()); a.insert(a.end(), y.begin(), y.end()); }
    else { o = "unknown"; l = drawLine(c, 5, {}, {"--p3Def", "--p3Dewkb"}); std::string s = c.pick<const char *>({"--unknown", "-h", "64", "--Size", "--size=64", "--mas", "--zfinal", ""}); size_t at = c.draw(l.parts.size() + 1); for (size_t i = 0; i <= l.parts.size(); i++) { if (i == at) a.push_back(s); if (i < l.parts.size()) a.insert(a.end(), l.parts[i].begin(), l.parts[i].end()); } } }
  c.say("%s [%s]", what.c_str(), show(a).c_str()); c.label(what); c.nontrivial = true;
  Res r = ask(a); if (!c.check(r.exited(), "crash-" + o, "the program was killed by signal %d", r.exited() ? 0 : WTERMSIG(r.status))) return;
  c.check(r.code() != 0, "accepted-" + o, "accepted without error"); if (r.code() != 0) c.check(!r.out.empty(), "silent-" + o, "ended without a message");
}

// with --index the parameters come from the file, and only those given on the command line replace them
LAW(C27, continued, 2000, 30000, NP1) {
  bool msa = c.chance(1, 4); std::set<std::string> f; if (msa) f.insert("--msa"); Line l = drawLine(c, c.pick({2, 6, 12, 30}), f); long k = c.range(0, 99999); Sim &m = l.m; size_t at = c.draw(l.parts.size() + 1); Args a; for (size_t i = 0; i <= l.parts.size(); i++) { if (i == at) { a.push_back("--index"); a.push_back(std::to_string(k)); } if (i < l.parts.size()) a.insert(a.end(), l.parts[i].begin(), l.parts[i].end()); }
  c.say("%s", show(a).c_str()); c.nontrivial = l.parts.size() >= 1; Res r = ask(a); if (!c.check(r.code() == 0, "refused", "valid command line refused: %s", why(r).c_str())) return;
  State w = m.s; w["index"] = num((double)k); auto has = [&](const char *o) { return m.given.count(o) > 0; }; auto unset = [&](const char *key, double v, bool given) { if (!given) w[key] = num(v); };
  unset("c.lsize", 0, has("--lsize")); unset("c.lambda", -1e8, has("--llcf") || msa || has("--msa")); if (!has("--llcf") && !has("--msa")) w["c.lz2e"] = "2"; unset("c.ind3", -1e8, has("--ind3") || has("--vqcd0")); unset("c.gam", -1e8, has("--gam")); unset("c.qcd", -1e8, has("--qcd"));
  unset("c.Rc", -1e8, has("--Rc")); unset("c.RcOff", -1e8, has("--RcOff")); unset("c.pot", V_NONE, m.uPot); unset("c.frw", m.mink ? 0 : 1, has("--frw")); unset("c.mink", 0, has("--mink"));
  compare(c, r, w, "value");
}

// help pages end the program with success before anything else is read; stop and abort requests left by an earlier run are removed
LAW(C27, startup, 600, 6000, NP1) {
  Line l = drawLine(c, c.pick({0, 3, 8})); int k = c.draw(3); std::string d = probeDir();
  if (k == 0) { std::string o = c.pick<const char *>({"--help", "--icinfo", "--measinfo", "--gravinfo"}); Args a; size_t at = c.draw(l.parts.size() + 1); for (size_t i = 0; i <= l.parts.size(); i++) { if (i == at) a.push_back(o); if (i < l.parts.size()) a.insert(a.end(), l.parts[i].begin(), l.parts[i].end()); } c.say("%s", show(a).c_str()); Res r = ask(a); c.check(r.code() == 0 && r.out.size() > 500 && r.st.empty(), "help", "%s did not print its page and end: %s", o.c_str(), why(r).c_str()); }
  else if (k == 1) { bool s = c.flip(), b = c.flip(); for (auto n : {"stop", "abort"}) if ((n[0] == 's') ? s : b) { FILE *f = fopen((d + "/" + n).c_str(), "w"); if (f) fclose(f); } FILE *f = fopen((d + "/other").c_str(), "w"); if (f) fclose(f);
    c.say("stop %d abort %d: %s", s, b, show(l.a).c_str()); c.nontrivial = s || b; Res r = ask(l.a); c.check(r.code() == 0, "refused", "refused: %s", why(r).c_str()); for (auto n : {"stop", "abort"}) { bool there = !access((d + "/" + n).c_str(), F_OK); c.check(!there, std::string("left-") + n, "the %s request of an earlier run is still there", n); unlink((d + "/" + n).c_str()); } c.check(!access((d + "/other").c_str(), F_OK), "removed-other", "an unrelated file was removed"); compare(c, r, l.m.s, "value"); }
  else { int w = c.draw(3); std::string e = w == 0 ? d : w == 1 ? d + "/nodir" : "/dev/null"; c.say("AXIONS_OUTPUT=%s", w == 0 ? "directory" : w == 1 ? "missing" : "not a directory"); c.nontrivial = true; Res r = ask(l.a, e); c.check(r.code() == 0, "refused", "refused: %s", why(r).c_str()); l.m.s["outdir"] = w == 0 ? d : "out/m"; compare(c, r, l.m.s, "value"); }
}

// the generated measurement list: logarithmically spaced times up to the final one, all of the default type
LAW(C27, measlist, 400, 4000, NP1) {
  std::string d = probeDir(), file = d + "/measfile.dat"; unlink(file.c_str()); std::set<std::string> f{"--zf", "--size", "--lsize", "--msa"}; Line l = drawLine(c, c.pick({1, 6}), f, {"--frw", "--mink", "--lz2e", "--llcf", "--logi", "--zi", "--dump"}); Sim &m = l.m;
  int per = c.range(1, 20); double z0 = c.chance(2, 3) ? c.real(.05, 3) : -1; Args a = l.a; a.push_back("--dump"); a.push_back(std::to_string(per)); char b[40]; if (z0 >= 0) { snprintf(b, 40, "%.4f", z0); z0 = atof(b); a.push_back("--zi"); a.push_back(b); } else z0 = 0; a.push_back("--measlistlog"); c.say("%s", show(a).c_str());
  // with a constant core size (--msa) the mass over the expansion rate grows like z
  double msaAt1 = m.msa;
  auto lg = [&](double z) { return log(msaAt1 * z * m.N / m.L); }; double logf = lg(m.zf); Res r = ask(a); if (!c.check(r.code() == 0, "refused", "refused: %s", why(r).c_str())) return;
  FILE *fp = fopen(file.c_str(), "r"); if (!c.check(fp, "nofile", "no measfile.dat")) return; std::vector<double> t; double z; long ty; bool types = true; while (fscanf(fp, "%lf %ld", &z, &ty) == 2) { t.push_back(z); types &= ty == m.meas; } fclose(fp); unlink(file.c_str());
  c.check(types, "type", "a measurement is not of the requested type %ld", m.meas); long n = std::max(0.0, std::ceil((logf - z0) * per - 1e-6)); c.nontrivial = n > 3;
  c.check(std::labs((long)t.size() - (n + 1)) <= 1, "count", "%zu times instead of %ld", t.size(), n + 1); for (long i = 0; i + 1 < (long)t.size() && i < n - 1; i++) { double wz = exp(z0 + i / (double)per) * m.L / m.N / msaAt1; c.check(std::fabs(t[i] - wz) <= 2e-6 + 1e-9 * wz, "time", "time %ld is %g instead of %g", i, t[i], wz); }
  if (!t.empty()) c.check(std::fabs(t.back() - m.zf) <= 2e-6 + 1e-9 * m.zf, "last", "the last time is %g instead of %g", t.back(), m.zf);
}
