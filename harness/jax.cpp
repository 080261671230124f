#include "jax.h"
#include <mpi.h>
#include <omp.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <fftw3.h>
#include <map>
#include "utils/profiler.h"
#include "utils/memAlloc.h"

extern int nThreadsJax; 
double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

int jaxInit(int argc, char **argv, int np) {
  zGrid = np; fIndex = 0; fftplanType = FFTW_ESTIMATE; strcpy(wisDir, "./"); strcpy(outDir, "out/m"); 
  if (!getenv("JAXIONS_DIR")) setenv("JAXIONS_DIR", getenv("JAX_REPO_DIR") ? getenv("JAX_REPO_DIR") : "/repo", 1);
  if (initComms(argc, argv, np, DEV_CPU, ZERO_RANK, VERB_SILENT) < 0) return 1;
  AxionsLog::myLog->stop();                  // no background logging thread: it races with the caller
  profiler::initProfilers();
  return 0;
}
void jaxReset() {
  fIndex = 0; lowmemGPU = false; fpectral = false; spectral = false; debug = false; Nng = 1; lowmem = false;
  icstudy = false; preprop = false; restart_flag = false; aMod = false; sPrec = FIELD_SINGLE; cType = CONF_NONE;
  fftplanType = FFTW_ESTIMATE; mink = false;
}
std::string Cfg::str() const {
  char b[600]; snprintf(b, sizeof b, "n=%d nz=%d Ng=%d %s type=%d L=%g t=%.6g lambda=%g lz2e=%g indi3=%g nq=%g/%g zth=%g zrs=%g frw=%g gamma=%g pot=%d%s%s", n, nz, Ng, dp() ? "double" : "single", (int)type, L, zi, lambda, lz2e, indi3, nqcd, nqcdr, zth, zrs, frw, gamma, (int)pot, lowmem ? " lowmem" : "", mink ? " mink" : ""); if (grav > 0) snprintf(b + strlen(b), 40, " grav=%g", grav); if (uec) snprintf(b + strlen(b), 40, " cosmo fA=%g", fA);
  return b;
}
void setupCosmos(Cosmos &c, const Cfg &g) {
  c.SetLambda(g.lambda); c.SetLamZ2Exp(g.lz2e); c.SetQcdExp(g.nqcd); c.SetQcdExpr(g.nqcdr); c.SetGamma(g.gamma); c.SetDecTime(g.dectime);
  c.SetQcdPot(g.pot); c.SetPhysSize(g.L); c.SetZThRes(g.zth); c.SetZRestore(g.zrs); c.SetIndi3(g.indi3); c.SetFrw(g.frw); c.SetMink(g.mink); c.SetUeC(g.uec); c.SetFA(g.fA);
  IcData ic; memset((void *)&ic, 0, sizeof ic); ic.cType = CONF_NONE; ic.zi = g.zi; ic.Nghost = g.Ng; ic.fType = g.type; ic.grav = g.grav; c.SetICData(ic);
}
Cosmos &tabulated(double fA) {
  static std::map<double, std::unique_ptr<Cosmos>> m; auto &p = m[fA]; if (!p) { p.reset(new Cosmos); p->SetUeC(true); p->SetFA(fA); p->Setup(); } return *p;
}
bool drawExpansion(pbt::Case &c, Cfg &g) {
  int k = c.range(0, 9); if (k == 0) { g.mink = false; g.frw = 1; g.grav = c.logreal(0.05, 5); c.label("radiation and matter"); return true; }
  if (k == 1) { g.mink = false; g.frw = 1; g.uec = true; g.fA = pow(10., (double)c.range(9, 16)); g.zi = std::min(g.zi, 2.); c.label("tabulated cosmology"); return true; }
  return false;
}
Fld::Fld(const Cfg &gg) : g(gg) {
  setupCosmos(cosmos, g); ::lowmem = g.lowmem;
  own.reset(new Scalar(&cosmos, g.n, g.nz / commSize(), g.prec, DEV_CPU, g.zi, g.lowmem, commSize(), g.type, g.ltype, g.Ng)); s = own.get();
  if (g.type == FIELD_PAXION) extra = {s->vCpu(), s->rhoCpu(), s->vhoCpu(), s->gxCpu()};
  else if (g.type == FIELD_SAXION) extra = {s->vCpu()};
}
Fld::Fld(const Cfg &gg, Scalar *a) : g(gg) { own.reset(a); s = a; if (g.type == FIELD_PAXION) extra = {s->vCpu(), s->rhoCpu(), s->vhoCpu(), s->gxCpu()}; else if (g.type == FIELD_SAXION) extra = {s->vCpu()}; }
Fld::~Fld() {
  FieldType t = s ? s->Field() : FIELD_SAXION; own.reset();
  // the destructor frees v only for complex fields
  if (g.type == FIELD_PAXION) for (void *p : extra) trackFree(p);
  else if (g.type == FIELD_SAXION && !(t & FIELD_SAXION)) for (void *p : extra) trackFree(p);
}
template <class T> static void nanfill(void *p, size_t bytes) { T *q = (T *)p; for (size_t i = 0; i < bytes / sizeof(T); i++) q[i] = std::numeric_limits<T>::quiet_NaN(); }
void Fld::poisonGhosts() {
  size_t gb = s->Surf() * s->DataSize() * s->getNg();
  auto f = [&](void *p, size_t b) { if (s->Precision() == FIELD_DOUBLE) nanfill<double>(p, b); else nanfill<float>(p, b); };
  f(s->mFrontGhost(), gb); f(s->mBackGhost(), gb);
  if (s->m2Cpu()) { f(s->m2FrontGhost(), gb); f(s->m2BackGhost(), gb); }
}
static Grid gatherBuf(const Fld &f, bool vel) {
  int n = f.n(), lz = f.lz(); std::vector<double> loc((size_t)n * n * lz * 2); size_t k = 0;
  for (int z = 0; z < lz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) { cd a = vel ? f.v(x, y, z) : f.m(x, y, z); loc[k++] = a.real(); loc[k++] = a.imag(); }
  Grid g(n, lz * commSize()); MPI_Allgather(loc.data(), loc.size(), MPI_DOUBLE, g.d.data(), loc.size(), MPI_DOUBLE, MPI_COMM_WORLD); return g;
}
Grid gatherM(const Fld &f) { return gatherBuf(f, false); }
Grid gatherV(const Fld &f) { return gatherBuf(f, true); }
void scatterM(Fld &f, const Grid &g) { int z0 = f.z0(); for (int z = 0; z < f.lz(); z++) for (int y = 0; y < f.n(); y++) for (int x = 0; x < f.n(); x++) f.setM(x, y, z, g.at(x, y, z + z0)); }
void scatterV(Fld &f, const Grid &g) { int z0 = f.z0(); for (int z = 0; z < f.lz(); z++) for (int y = 0; y < f.n(); y++) for (int x = 0; x < f.n(); x++) f.setV(x, y, z, g.at(x, y, z + z0)); }

Content drawContent(pbt::Case &c, double amp, cd base, bool allowConst) {
  Content k; k.kind = allowConst ? c.pick<int>({0, 1, 1, 2, 3, 4, 1}) : c.pick<int>({1, 2, 3, 4, 1}); k.seed = c.seed(); k.amp = amp; k.base = base; 
  static const char *nm[] = {"const", "noise", "waves", "deltas", "waves+noise"}; c.label(std::string("content:") + nm[k.kind]); return k;
}
cd Content::operator()(int x, int y, int z, int n, int nz) const {
  auto hr = [&](uint64_t a) { return hreal(mix(seed * 7919 + a)); };
  auto noise = [&]() { uint64_t h = mix(seed) ^ mix(((uint64_t)z << 40) ^ ((uint64_t)y << 20) ^ (uint64_t)x); return cd(hreal(h), hreal(h + 77)); };
  auto waves = [&]() { cd s = 0; for (int i = 0; i < 3; i++) { 
      int kx = (int)floor(hr(10 * i) * 3.999 + (hr(10 * i) < 0)), ky = (int)floor(hr(10 * i + 1) * 3.999), kz = (int)floor(hr(10 * i + 2) * 3.999);
      double ph = 2 * M_PI * ((double)kx * x / n + (double)ky * y / n + (double)kz * z / nz); s += cd(hr(10 * i + 3), hr(10 * i + 4)) * cos(ph) + cd(hr(10 * i + 5), hr(10 * i + 6)) * sin(ph); } return s / 3.0; };
  switch (kind) {
    case 0: return base + amp * cd(hr(1), hr(2)) * 0.5;
    case 1: return base + amp * noise();
    case 2: return base + amp * waves();
    case 3: { cd s = base; for (int i = 0; i < 4; i++) { auto co = [&](int j, int m) { uint64_t h = mix(seed * 31 + 10 * i + j); switch (h % 4) { case 0: return 0; case 1: return m - 1; default: return (int)((h >> 8) % m); } };
        if (x == co(0, n) && y == co(1, n) && z == co(2, nz)) s += amp * cd(hr(100 + i), hr(200 + i)); } return s; }
    default: return base + 0.6 * amp * waves() + 0.3 * amp * noise();
  }
}
Grid fillGrid(const Content &k, int n, int nz, bool cplx, FieldPrecision p) {
  Grid g(n, nz); for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) { cd a = k(x, y, z, n, nz); if (!cplx) a = cd(a.real(), 0); g.at(x, y, z) = rndp(a, p); } return g;
}
Quiet::Quiet() { fflush(stdout); fd = dup(1); int o = open("/dev/null", O_WRONLY); dup2(o, 1); close(o); }
Quiet::~Quiet() { fflush(stdout); dup2(fd, 1); close(fd); }
std::string scratchDir() { char b[4096]; if (!getcwd(b, sizeof b)) return "."; return b; }
