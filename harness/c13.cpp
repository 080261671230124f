// C13: the axion energies (averages and map) against the lattice definition
#include "ref.h"
#include "energy/energy.h"
using namespace ref;
namespace { const char *NM[5] = {"GRX", "GRY", "GRZ", "KIN", "POT"}; }
static void run(Case &c, bool shortRows) {
  int np = commSize(), rk = commRank();
  Cfg g; bool mod = c.flip(); g.type = mod ? FIELD_AXION_MOD : FIELD_AXION; g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); int lanes = g.dp() ? 4 : 8; g.Ng = c.pick<int>({1, 2, 1, 4});
  g.n = shortRows ? lanes : lanes * c.range(2, 32 / lanes); while (g.n % np) g.n += lanes; g.nz = np * c.range(g.Ng, g.Ng + 6); if (g.n <= 12 && c.chance(1, 8)) g.nz = np * (g.n + c.range(1, 9));
  g.frw = c.pick<double>({1, 0.5, 2, 1.5}); if (c.chance(1, 8)) { g.mink = true; g.frw = 0; } g.zi = c.logreal(0.3, 5); drawExpansion(c, g); g.L = c.logreal(1, 20); g.nqcd = c.pick<double>({7, 0, 3}); g.indi3 = c.logreal(0.1, 10);
  g.pot = (VqcdType)(c.pick<int>({V_QCD1, V_QCDC, V_QCD0}) | V_PQ1);
  Bg b = bg(g, g.zi); double R = b.R; g.indi3 *= pow(R, -g.nqcd / 2); b = bg(g, g.zi); double P = 2 * M_PI * R;
  bool map = c.flip(), fold = c.flip(); double amp = R * c.pick<double>({0.1, 1, 3.1}); cd base = cd(R * c.real(-1, 1) * (mod ? 3.14 - amp / R : 3), 0); if (!mod && c.chance(1, 3)) amp *= 5;
  Content km = drawContent(c, amp, base), kv = drawContent(c, R * g.n / g.L * c.logreal(0.1, 3), 0);
  c.say("%s map=%d km=%d kv=%d amp/R=%g folded=%d", g.str().c_str(), map, km.kind, kv.kind, amp / R, fold);
  Fld f(g); Scalar *s = f.s; if (fold) f.fold(); f.poisonGhosts();
  Grid m = fillGrid(km, g.n, g.nz, false, g.prec), v = fillGrid(kv, g.n, g.nz, false, g.prec); 
  if (mod) for (auto &x : m.d) x = rndp(wrap(x.real(), P), g.prec);
  scatterM(f, m); scatterV(f, v); int n = g.n, lz = f.lz(); size_t S = s->Surf(), V = s->Size();
  s->setM2(M2_DIRTY); for (size_t i = 0; i < V; i++) f.putReal(s->m2Cpu(), i, -777);
  double res[64]; for (double &x : res) x = 0; { Quiet q; energy(s, res, map ? EN_MAP : EN_ENE, 0.); }
  double od2 = pow(g.n / g.L, 2), E[5] = {0}, Sc[5] = {0}, eps = g.eps(), R4 = R * R * R * R; int bad = 0;
  const int D[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; double frw = g.mink ? 0 : g.frw;
  for (int z = 0; z < g.nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) {
    double e = m.at(x, y, z).real(), w = v.at(x, y, z).real(), t[5] = {0}, sc[5] = {0};
    for (int d = 0; d < 3; d++) for (int k = -1; k <= 1; k += 2) { double q = m.at(x + k * D[d][0], y + k * D[d][1], z + k * D[d][2]).real() - e, r = mod ? wrap(q, P) : q; t[d] += 0.25 * od2 / R4 * r * r; sc[d] += 0.25 * od2 / R4 * (r * r + (mod ? 4 * fabs(r) * P + fabs(q) * P : 0)); }
    double Hm = b.Rp * e; t[3] = 0.5 / R4 * pow(w - Hm, 2); sc[3] = 0.5 / R4 * pow(fabs(w) + fabs(Hm), 2); double th = e / R; if ((g.pot & V_QCD) != V_QCD0) t[4] = b.mA2 * (1 - cos(th)); sc[4] = b.mA2 * (1 + fabs(th)) * 2;
    for (int i = 0; i < 5; i++) { E[i] += t[i]; Sc[i] += sc[i]; }
    if (map && z / lz == rk && bad < 3) { double W = 0, K = 0; for (int i = 0; i < 5; i++) W += t[i], K += sc[i]; bad += !c.near(f.real(s->m2Cpu(), (size_t)(z - f.z0()) * S + (size_t)y * n + x), W, 60 * eps * K + 1e-300, "map", "energy map at (%d,%d,%d)", x, y, z); } }
  double N = (double)n * n * g.nz; (void)frw;
  for (int i = 0; i < 5; i++) c.near(res[i], E[i] / N, (60 * eps + 3e-16 * N) * Sc[i] / N + 1e-300, NM[i], "%s", NM[i]);
  for (int z = 0; z < lz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) if (f.m(x, y, z) != m.at(x, y, z + f.z0()) || f.v(x, y, z) != v.at(x, y, z + f.z0())) { c.fail("field", "energy() changed the field at (%d,%d,%d)", x, y, z + f.z0()); z = lz; break; }
  if (!map) { for (size_t i = 0; i < V; i++) if (f.real(s->m2Cpu(), i) != -777) { c.fail("m2-untouched", "m2[%zu] was overwritten although no map was requested", i); break; } c.check(s->m2Status() == M2_DIRTY, "status", "m2 status %d without an energy map", (int)s->m2Status()); }
  if (map) c.check(s->m2Status() == M2_ENERGY, "status", "m2 status %d after an energy map", (int)s->m2Status());
  c.nontrivial = km.kind != 0 && kv.kind != 0; c.label(mod ? "mod" : "plain"); c.label(map ? "map" : "average");
}
LAW(C13, energies, 2600, 40000, NP1 | NP2 | NP3) { run(c, false); }
// rows of a single vector: both y neighbours of a site wrap
LAW(C13, short_rows, 60, 600, NP1 | NP2) { run(c, true); for (auto &f : c.fails) if (f.sig.find("GRY") != std::string::npos || f.sig.find("map") == 0) f.sig = "y-gradient"; }
