// C12: the Peccei-Quinn energies (averages, masked averages, maps) against the lattice definition
#include "ref.h"
#include "energy/energy.h"
#include "scalar/folder.h"
#include <mpi.h>
using namespace ref;
namespace {
const std::vector<int> QCD = {V_QCD1, V_QCDC, V_QCD2, V_QCD0, V_QCDV}, PQ = {V_PQ1, V_PQ2, V_PQ3};
const char *NM[23] = {"TH_GRX", "TH_GRY", "TH_GRZ", "TH_KIN", "TH_POT", "RH_GRX", "RH_GRY", "RH_GRZ", "RH_KIN", "RH_POT", "RH_RHO", "TH_GRXM", "TH_GRYM", "TH_GRZM", "TH_KINM", "TH_POTM", "RH_GRXM", "RH_GRYM", "RH_GRZM", "RH_KINM", "RH_POTM", "RH_RHOM", "MM_NUMM"};
struct Site { double e[11], s[11]; };   // energies in the library's order and their rounding scale
Site site(const Cfg &g, const Bg &b, const Grid &m, const Grid &v, int x, int y, int z, double od2, double shift) {
  Site r; memset(&r, 0, sizeof r); cd e = m.at(x, y, z), w = v.at(x, y, z); double R2 = b.R * b.R, mod = std::norm(e) / R2;
  const int D[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  for (int d = 0; d < 3; d++) for (int s = -1; s <= 1; s += 2) {
    cd q = (m.at(x + s * D[d][0], y + s * D[d][1], z + s * D[d][2]) - e) / e; double k = 0.25 * od2 / R2 * mod;
    r.e[d] += k * q.imag() * q.imag(); r.e[5 + d] += k * q.real() * q.real(); r.s[d] += k * std::norm(q); r.s[5 + d] += k * std::norm(q); }
  cd q = w / e; double k = 0.5 / R2 * mod; r.e[3] = k * q.imag() * q.imag(); r.e[8] = k * pow(q.real() - b.Rp, 2); r.s[3] = k * std::norm(q); r.s[8] = k * pow(std::abs(q) + fabs(b.Rp), 2);
  cd f = e - shift; double rho2 = std::norm(f) / R2, rho = sqrt(rho2); r.e[10] = rho; r.s[10] = (std::abs(e) + fabs(shift)) / b.R;
  double amp = r.s[10] * r.s[10]; // rounding of the shifted modulus
  switch (g.pot & V_PQ) {
    case V_PQ1: r.e[9] = pow(rho2 - 1, 2); r.s[9] = pow(amp + 1, 2); break;
    case V_PQ2: r.e[9] = pow(rho2 * rho2 - 1, 2); r.s[9] = pow(amp * amp + 1, 2); break;
    default: r.e[9] = rho < 1 ? pow(rho2 - 1, 2) : 4 * pow(rho - 1, 2); r.s[9] = 4 * pow(amp + 1, 2); }
  r.e[9] *= 0.25 * b.lam; r.s[9] *= 0.25 * b.lam;
  double c = std::abs(f) > 0 ? f.real() / std::abs(f) : 1, cs = std::abs(f) > 0 ? (std::abs(e) + fabs(shift)) / std::abs(f) : 1;
  switch (g.pot & V_QCD) {
    case V_QCD1: case V_QCDC: r.e[4] = 1 - c; break;
    case V_QCD2: r.e[4] = 0.5 * (1 - c * c); break;
    case V_QCDV: r.e[4] = 0.5 * std::norm(1. - f / b.R); cs += amp; break;
    default: r.e[4] = 0; }
  r.e[4] *= b.mA2; r.s[4] = b.mA2 * (1 + cs); return r;
}
}
static void run(Case &c, bool shortRows) {
  int np = commSize(), rk = commRank();
  Cfg g; g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); int lanes = g.dp() ? 2 : 4; g.Ng = c.pick<int>({1, 2, 1, 4}); g.lowmem = c.chance(1, 8);
  g.n = shortRows ? 4 : lanes * c.range(2, 24 / lanes); if (shortRows) g.prec = FIELD_SINGLE, lanes = 4; while (g.n % np) g.n += lanes; g.nz = np * c.range(g.Ng, g.Ng + 6); if (g.n <= 12 && c.chance(1, 8)) g.nz = np * (g.n + c.range(1, 9));
  g.frw = c.pick<double>({1, 0.5, 2, 1.5}); if (c.chance(1, 8)) { g.mink = true; g.frw = 0; } g.zi = c.logreal(0.3, 5); drawExpansion(c, g); g.L = c.logreal(1, 20); g.nqcd = c.pick<double>({7, 0, 3}); g.lambda = c.logreal(0.1, 1000);
  if (c.flip()) g.lz2e = c.pick<double>({1, 2}), g.ltype = LAMBDA_FIXED; 
  g.pot = (VqcdType)(c.pick<int>(QCD) | c.pick<int>(PQ)); g.indi3 = c.logreal(0.1, 10); 
  Bg b = bg(g, g.zi); double R = b.R; g.indi3 *= pow(R, -g.nqcd / 2); b = bg(g, g.zi);
  EnType em = g.lowmem ? EN_ENE : c.pick<EnType>({EN_ENE, EN_MAP, EN_ENE, EN_MASK, EN_ENEMASK, EN_MAPMASK, EN_ENEMAPMASK}); double shift = c.chance(1, 3) ? R * c.real(-0.6, 0.6) : 0;
  double amp = R * c.pick<double>({0.3, 1, 0.05}); cd base = std::polar(R, c.real(-M_PI, M_PI)); if (c.chance(1, 4)) { base = 0; amp = R; }
  Content km = drawContent(c, amp, base), kv = drawContent(c, R * g.n / g.L * c.logreal(0.1, 3), R * b.Rp); int maskk = c.range(0, 4); uint64_t msd = c.seed(); bool fold = c.flip();
  c.say("%s emap=%d shift=%g km=%d kv=%d mask=%d folded=%d", g.str().c_str(), (int)em, shift, km.kind, kv.kind, maskk, fold);
  Fld f(g); Scalar *s = f.s; if (fold) f.fold(); f.poisonGhosts();
  Grid m = fillGrid(km, g.n, g.nz, true, g.prec), v = fillGrid(kv, g.n, g.nz, true, g.prec);
  // the energies divide by the modulus: keep it away from zero
  for (auto &x : m.d) { if (std::abs(x) < 0.02 * R) x = rndp(x + cd(0.1 * R, 0), g.prec); if (shift != 0 && std::abs(x - shift) < 0.02 * R) x = rndp(x + cd(0, 0.1 * R), g.prec); }
  scatterM(f, m); scatterV(f, v); int n = g.n, lz = f.lz(); size_t V = s->eSize(), S = s->Surf();
  auto masked = [&](int x, int y, int z) { uint64_t h = mix(msd ^ mix(x + 1000 * y + 1000000 * z)); switch (maskk) { case 0: return h % 2 == 0; case 1: return h % 20 == 0; case 2: return z == (int)(msd % g.nz); case 3: return (x + y) % 3 == 0; default: return true; } };
  if (em & EN_MASK) { char *sd = (char *)s->sData(); for (int z = 0; z < lz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) sd[(size_t)z * S + (size_t)y * n + x] = (char)((masked(x, y, z + f.z0()) ? STRING_MASK : 0) | (mix(msd + x * 7 + y * 11 + z) % 128)); s->setSD(SD_MASK); }
  if (!g.lowmem) s->setM2(M2_DIRTY);
  if (!g.lowmem) for (size_t i = 0; i < 2 * V; i++) f.putReal(s->m2Cpu(), i, -777);
  double res[64]; for (double &x : res) x = -12345; { Quiet q; energy(s, res, em, shift); }
  double od2 = pow(g.n / g.L, 2), E[23] = {0}, Sc[23] = {0}; double nm = 0; double eps = g.eps(); int bad = 0;
  for (int z = 0; z < g.nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) {
    Site t = site(g, b, m, v, x, y, z, od2, shift); bool mk = masked(x, y, z);
    for (int i = 0; i < 11; i++) { E[i] += t.e[i]; Sc[i] += t.s[i]; if (mk) { E[11 + i] += t.e[i]; Sc[11 + i] += t.s[i]; } } nm += mk;
    if ((em & EN_ONLYMAP) && z / lz == rk && bad < 3) { size_t o = (size_t)(z - f.z0()) * S + (size_t)y * n + x; double wt = 0, wr = 0, st = 0, sr = 0; for (int i = 0; i < 5; i++) { wt += t.e[i]; wr += t.e[5 + i]; st += t.s[i]; sr += t.s[5 + i]; }
      if (em == EN_MAPMASK && !mk) wt = wr = 0;
      bad += !c.near(f.real(s->m2Cpu(), o), wt, 60 * eps * (st + 1e-30), "map-theta", "angular energy map at (%d,%d,%d)", x, y, z); bad += !c.near(f.real(s->m2Cpu(), V + o), wr, 60 * eps * (sr + 1e-30), "map-rho", "radial energy map at (%d,%d,%d)", x, y, z); } }
  double N = (double)n * n * g.nz;
  auto cmp = [&](int i, double norm) { c.near(res[i], E[i] / norm, (60 * eps + 3e-16 * N) * Sc[i] / norm + 1e-300, NM[i], "%s", NM[i]); };
  if (em & EN_ENE) for (int i = 0; i < 11; i++) cmp(i, N);
  if (em & EN_MASK) { c.near(res[22], nm, 0, "MM_NUMM", "number of masked sites"); if (nm > 0) for (int i = 11; i < 22; i++) cmp(i, nm); }
  if (!g.lowmem && !(em & EN_ONLYMAP)) { for (size_t i = 0; i < 2 * s->Size(); i++) if (f.real(s->m2Cpu(), i) != -777) { c.fail("m2-untouched", "m2[%zu] was overwritten although no map was requested", i); break; } c.check(s->m2Status() == M2_DIRTY, "status", "m2 status %d without an energy map", (int)s->m2Status()); }
  // the field itself is untouched, and the state says what m2 holds
  for (int z = 0; z < lz && !bad; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) if (f.m(x, y, z) != m.at(x, y, z + f.z0()) || f.v(x, y, z) != v.at(x, y, z + f.z0())) { c.fail("field", "energy() changed the field at (%d,%d,%d)", x, y, z + f.z0()); z = lz; break; }
  if (em & EN_ONLYMAP) c.check(s->m2Status() == M2_ENERGY, "status", "m2 status %d after an energy map", (int)s->m2Status());
  c.nontrivial = km.kind != 0 && kv.kind != 0 && (!(em & EN_MASK) || (nm > 0 && nm < N)); c.label("emap" + std::to_string((int)em)); c.label(g.dp() ? "double" : "single"); c.label("pot" + std::to_string((int)g.pot));
}
LAW(C12, energies, 2600, 40000, NP1 | NP2 | NP3) { run(c, false); }
// rows of a single vector: both y neighbours of a site wrap
LAW(C12, short_rows, 60, 600, NP1 | NP2) { run(c, true); for (auto &f : c.fails) if (f.sig.find("GRY") != std::string::npos || f.sig.find("map") == 0) f.sig = "y-gradient"; }
