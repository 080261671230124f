// C05: the non-relativistic axion (complex field psi = m + i v): conversion, step, energies and gravitational potential
#include "resample.h"
#include "propagator/propBase.h"
#include "propagator/allProp.h"
#include "scalar/thetaPaxion.h"
#include "energy/energy.h"
#include "gravity/potential.h"
#include "fft/fftCode.h"
#include <mpi.h>
extern std::unique_ptr<PropBase> prop;
extern PropType pType;
using namespace ref;
namespace {
// psi' = i a(t) lap psi + i k(t) |psi|^2 psi - i q(t) Phi psi
struct Pax { Cfg g; double beta, grav; double a(double t) const { Bg b = bg(g, t); return 1 / (2 * sqrt(b.mA2) * b.R); } double k(double t) const { double R = bg(g, t).R; return beta / (8 * R * R); } double q(double t) const { return grav * sqrt(bg(g, t).mA2); } };
std::vector<cd> lap(const std::vector<cd> &p, int n, int nz, int Ng, double od2) { Grid G(n, nz); G.d = p; std::vector<cd> o(p.size()); size_t i = 0; for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) o[i++] = lapl(G, x, y, z, Ng, od2); return o; }
void evolve(const Pax &P, std::vector<cd> &p, int n, int nz, double t0, double t1, int N) {
  double od2 = pow(P.g.n / P.g.L, 2), h = (t1 - t0) / N; size_t S = p.size(); auto rhs = [&](const std::vector<cd> &u, double t) { auto l = lap(u, n, nz, P.g.Ng, od2); double a = P.a(t), k = P.k(t); for (size_t i = 0; i < S; i++) l[i] = cd(0, 1) * (a * l[i] + k * std::norm(u[i]) * u[i]); return l; };
  for (int s = 0; s < N; s++) { double t = t0 + s * h; auto k1 = rhs(p, t); std::vector<cd> u(S); for (size_t i = 0; i < S; i++) u[i] = p[i] + h / 2 * k1[i]; auto k2 = rhs(u, t + h / 2); for (size_t i = 0; i < S; i++) u[i] = p[i] + h / 2 * k2[i]; auto k3 = rhs(u, t + h / 2); for (size_t i = 0; i < S; i++) u[i] = p[i] + h * k3[i]; auto k4 = rhs(u, t + h); for (size_t i = 0; i < S; i++) p[i] += h / 6 * (k1[i] + 2. * k2[i] + 2. * k3[i] + k4[i]); } }
// potential with zero mean whose continuum Laplacian is rho minus its mean
std::vector<double> poisson(const std::vector<double> &rho, int n, int nz, double L) { std::vector<cd> d(rho.begin(), rho.end()); dft(d, n, nz, -1); double N = (double)n * n * nz, k0 = 2 * M_PI / L, kz0 = k0 * n / nz; size_t i = 0; auto sg = [](int k, int n) { return k > n / 2 ? k - n : k; }; for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++, i++) { double k2 = k0 * k0 * (sg(x, n) * sg(x, n) + sg(y, n) * sg(y, n)) + kz0 * kz0 * sg(z, nz) * sg(z, nz); d[i] = i ? -d[i] / (k2 * N) : 0; } dft(d, n, nz, 1); std::vector<double> o; for (auto &x : d) o.push_back(x.real()); return o; }
Grid psi(const Fld &f) { Grid a = gatherM(f), b = gatherV(f); for (size_t i = 0; i < a.d.size(); i++) a.d[i] += cd(0, 1) * b.d[i].real(); return a; }
struct Setup { Cfg g; double beta = 0, grav = -1; };
void lattice(Case &c, Cfg &g, int maxn) { int np = commSize(); g.type = FIELD_AXION; g.prec = c.pick<FieldPrecision>({FIELD_DOUBLE, FIELD_SINGLE}); int la = g.dp() ? 4 : 8; g.Ng = g.dp() ? c.pick<int>({1, 2, 1}) : c.pick<int>({1, 1, 2}); int lo = 2 * g.Ng * la; if (g.Ng == 1) lo = la * c.range(2, 3); g.n = lo; while (g.n % np) g.n += la; if (g.n < maxn && c.chance(1, 3)) { int q = g.n + la; if (q % np == 0) g.n = q; } g.nz = np * std::max(g.Ng, (int)c.range(1, 8)); }
void background(Case &c, Cfg &g) { g.frw = c.pick<double>({1, 1, 0.5, 2, 1.5, 0.7}); if (c.chance(1, 8)) { g.mink = true; g.frw = 0; } g.zi = c.logreal(0.3, 20); g.nqcd = c.pick<double>({7, 0, 2, 4.5}); g.nqcdr = 0; double R = bg(g, g.zi).R; if (c.flip()) g.zth = R * c.real(0.3, 0.95); else g.zth = R * 1e4; }
// complex field psi in a Scalar, made through the conversion from the axion
void makePax(Fld &f, const Grid &p, bool fold) { { Quiet q; f.unfold(); thetaToPaxion(f.s); } Scalar *s = f.s; Grid m(p.n, p.nz), v(p.n, p.nz); for (size_t i = 0; i < p.d.size(); i++) { m.d[i] = p.d[i].real(); v.d[i] = p.d[i].imag(); } if (fold) f.fold(); else f.unfold(); scatterM(f, m); scatterV(f, v); (void)s; }
Grid drawPsi(Case &c, const Cfg &g, double A, int &kind) { Content k = drawContent(c, A * 0.5, std::polar(A * c.real(0, 0.5), c.real(0, 6.28))); kind = k.kind; Grid p(g.n, g.nz); for (int z = 0; z < g.nz; z++) for (int y = 0; y < g.n; y++) for (int x = 0; x < g.n; x++) p.at(x, y, z) = rndp(k(x, y, z, g.n, g.nz), g.prec); return p; }
}
// axion -> psi: m = sqrt(mR/2) phi, v = (phi' + (mR)'/(2mR) phi) / sqrt(2mR), with m R the conformal mass
LAW(C05, convert, 400, 15000, NP1 | NP2 | NP3) {
  Cfg g; lattice(c, g, 24); background(c, g); g.L = c.logreal(1, 20); g.indi3 = c.logreal(0.1, 100); drawExpansion(c, g); Content km = drawContent(c, c.logreal(0.01, 3), c.real(-1, 1)), kv = drawContent(c, c.logreal(0.01, 3), c.real(-1, 1)); bool fold = c.flip(); Grid m = fillGrid(km, g.n, g.nz, false, g.prec), v = fillGrid(kv, g.n, g.nz, false, g.prec); c.say("%s folded=%d", g.str().c_str(), fold);
  Fld f(g); if (fold) f.fold(); scatterM(f, m); scatterV(f, v); { Quiet q; thetaToPaxion(f.s); } c.check(f.s->Field() == FIELD_PAXION, "type", "field type %d after the conversion", (int)f.s->Field()); Grid p = psi(f); Bg b = bg(g, g.zi); double h = 1e-5 * g.zi, w = sqrt(b.mA2) * b.R, dl; if (g.uec) { Bg x = bg(g, g.zi + h), y = bg(g, g.zi - h); dl = (log(sqrt(x.mA2) * x.R) - log(sqrt(y.mA2) * y.R)) / (2 * h); } else dl = b.Rp * (b.R < g.zth ? g.nqcd / 2 + 1 : 1);
  double wm = 0, wv = 0; double mx = maxabs(m), vx = maxabs(v); for (size_t i = 0; i < p.d.size(); i++) { double x = m.d[i].real(), y = v.d[i].real(); double em = sqrt(w / 2) * x, ev = (y + dl / 2 * x) / sqrt(2 * w); wm = std::max(wm, fabs(p.d[i].real() - em)); wv = std::max(wv, fabs(p.d[i].imag() - ev)); }
  double e = 16 * g.eps(), ue = g.uec ? 1e-4 : 1e-12; c.near(wm, 0, e * sqrt(w) * mx, "field", "field off by"); c.near(wv, 0, e * (vx + fabs(dl) * mx) / sqrt(w) + ue * fabs(dl) * mx / sqrt(w), "velocity", "imaginary part off by"); c.nontrivial = km.kind && kv.kind; c.label("Ng" + std::to_string(g.Ng)); if (fold) c.label("folded"); }
// one or more steps against the differential equation on the lattice
LAW(C05, step, 500, 12000, NP1 | NP2 | NP3) {
  Cfg g; lattice(c, g, 16); if (g.nz > 8 * commSize()) g.nz = 8 * commSize(); background(c, g); g.L = c.logreal(1, 20); bool fold = c.flip(); int steps = c.range(1, 3); double r = c.logreal(1e-4, 0.05), dz = r * g.zi; int mode = c.range(0, 3); double pl = mode == 2 ? 1e-14 : c.logreal(0.02, 0.3), pk = mode == 1 ? 0 : c.logreal(0.02, 0.3), od2 = pow(g.n / g.L, 2), A = c.logreal(0.3, 3);
  g.indi3 = 1; Bg b = bg(g, g.zi); g.indi3 = 20 * od2 * dz / (2 * pl * b.R) / sqrt(b.mA2); Setup s; s.beta = pk / dz * 8 * b.R * b.R / (A * A) * (c.flip() ? 1 : -1); int kind; Grid p = drawPsi(c, g, A, kind); c.say("%s dz=%g steps=%d beta=%g lap %g kick %g folded=%d", g.str().c_str(), dz, steps, s.beta, pl, pk, fold);
  Fld f(g); IcData ic = f.cosmos.ICData(); ic.beta = s.beta; f.cosmos.SetICData(ic); makePax(f, p, fold); unsigned by = 0, bz = 0; bool blk = c.flip(); if (blk) { by = c.range(1, g.n / 4 + 1); bz = c.range(1, 9); }
  { Quiet q; pType = (PropType)(PROP_BASE | PROP_RKN4); initPropagator(pType, f.s, g.pot, g.Ng); } if (blk) { prop->SetBlockY(by); prop->SetBlockZ(bz); } double n0 = 0, n1 = 0, mx = maxabs(p); for (auto &x : p.d) n0 += std::norm(x);
  for (int i = 0; i < steps; i++) propagate(f.s, dz); prop.reset(); Grid o = psi(f); for (auto &x : o.d) n1 += std::norm(x); double t1 = g.zi + steps * dz; c.near(*f.s->zV(), t1, 1e-13 * t1, "time", "time"); c.near(*f.s->RV(), bg(g, t1).R, 1e-12 * bg(g, t1).R, "scale", "scale factor");
  Pax P{g, s.beta, 0}; auto e = p.d; evolve(P, e, g.n, g.nz, g.zi, t1, steps * 8); double k = pk * mx * mx / (A * A), l = pl, er = g.eps() * 40 * steps; double nn = 1 + fabs(g.frw) * (2 + g.nqcd); double split = steps * (0.5 * l * l * k + 0.5 * l * k * k + 0.1 * pow(l, 5) + 1e-9 * (l + k)) + steps * 8 * pow(l + k, 5) / pow(8, 5), drift = steps * r * nn * l * 0.2; 
  double w = 0, tol = mx * (er + split + drift); for (size_t i = 0; i < e.size(); i++) w = std::max(w, std::abs(e[i] - o.d[i])); if (getenv("PBT_M")) fprintf(stderr, "M step err %.3g  er %.3g split %.3g drift %.3g mode %d np %d\n", w / mx, er, split, drift, mode, commSize()); c.near(w, 0, tol, "psi", "largest deviation from the equation");
  c.near(n1 / n0, 1, er + steps * (0.05 * pow(l, 4) + 0.5 * l * l * k + 0.2 * r * nn * l), "number", "particle number changed by the factor"); c.nontrivial = kind != 0; c.label(mode == 1 ? "free" : mode == 2 ? "self-interaction only" : "both"); c.label("Ng" + std::to_string(g.Ng)); if (fold) c.label("folded"); }
// number density, gradient and self-interaction energies
LAW(C05, energy, 400, 15000, NP1 | NP2 | NP3) {
  Cfg g; lattice(c, g, 24); background(c, g); g.L = c.logreal(1, 20); g.indi3 = c.logreal(0.1, 100); bool fold = c.flip(), map = c.flip(); int kind; Grid p = drawPsi(c, g, c.logreal(0.1, 10), kind); c.say("%s folded=%d map=%d", g.str().c_str(), fold, map);
  Fld f(g); makePax(f, p, fold); double e[256] = {0}; { Quiet q; energy(f.s, e, map ? EN_MAP : EN_ENE); } Bg b = bg(g, g.zi); double d = g.L / g.n, G[3] = {0}, N = 0, V = 0, vol = (double)g.n * g.n * g.nz; std::vector<double> dn, de; 
  for (int z = 0; z < g.nz; z++) for (int y = 0; y < g.n; y++) for (int x = 0; x < g.n; x++) { cd q = p.at(x, y, z); double gr = 0; for (int a = 0; a < 3; a++) { double u = std::norm(p.at(x + (a == 0), y + (a == 1), z + (a == 2)) - q) + std::norm(p.at(x - (a == 0), y - (a == 1), z - (a == 2)) - q); G[a] += u; gr += u; } double n2 = std::norm(q); N += n2; V += n2 * n2; dn.push_back(n2); de.push_back(gr * 0.25 / sqrt(b.mA2) / d / d / pow(b.R, 5) - n2 * n2 / 16 / pow(b.R, 6)); }
  double E = 64 * g.eps() + 3e-16 * vol, fg = 0.25 / sqrt(b.mA2) / d / d / pow(b.R, 5) / vol, mx = maxabs(p), tg = E * fg * vol * mx * mx; const char *nm[3] = {"gradient x", "gradient y", "gradient z"}; int ix[3] = {TH_GRX, TH_GRY, TH_GRZ}; for (int a = 0; a < 3; a++) c.near(e[ix[a]], G[a] * fg, tg + E * G[a] * fg, "gradient", nm[a]); c.near(e[TH_KIN], N / vol, E * N / vol, "number", "number density"); c.near(e[TH_POT], -V / vol / 16 / pow(b.R, 6), E * V / vol / 16 / pow(b.R, 6), "potential", "self-interaction energy");
  if (map) { int lz = f.lz(), z0 = f.z0(); double w1 = 0, w2 = 0, s2 = 0; size_t k = 0; for (int z = 0; z < lz; z++) for (int y = 0; y < g.n; y++) for (int x = 0; x < g.n; x++, k++) { size_t j = ((size_t)(z + z0) * g.n + y) * g.n + x; w1 = std::max(w1, fabs(f.real(f.s->m2Cpu(), k) - dn[j])); w2 = std::max(w2, fabs(f.real(f.s->m2half(), k) - de[j])); s2 = std::max(s2, fabs(de[j])); } c.near(w1, 0, g.eps() * 16 * mx * mx, "map", "number density map off by"); c.near(w2, 0, g.eps() * 64 * (s2 + 3 * fg * vol * mx * mx + pow(mx, 4) / 16 / pow(b.R, 6)), "energy_map", "energy density map off by"); c.label("map"); }
  c.nontrivial = kind != 0; c.label("Ng" + std::to_string(g.Ng)); }
// potential of the density, normalisation of the field, and the phase it produces in a step
LAW(C05, gravity, 300, 10000, NP1 | NP2 | NP3) {
  Cfg g; lattice(c, g, 16); int np = commSize(); bool cube = c.chance(3, 4); if (cube) g.nz = g.n; while (g.nz / np < g.Ng || g.nz % np || g.nz % 2) g.nz += np; background(c, g); if (g.mink) { g.mink = false; g.frw = 1; } g.frw = g.frw; g.L = c.logreal(1, 20); bool fold = c.flip(); int kind; Grid p = drawPsi(c, g, c.logreal(0.3, 3), kind); double beta = c.real(-1, 1), r = c.logreal(1e-4, 1e-2), dz = r * g.zi, pg = c.logreal(0.02, 0.3), n0 = 0; for (auto &x : p.d) n0 += std::norm(x); n0 /= p.d.size(); if (!(n0 > 1e-6)) { c.discarded = true; return; }
  g.indi3 = 1; Bg b = bg(g, g.zi); g.indi3 = 20 * pow(g.n / g.L, 2) * dz / (2 * 1e-14 * b.R) / sqrt(b.mA2); std::vector<double> rho; for (auto &x : p.d) rho.push_back(std::norm(x) / n0); auto ph = poisson(rho, g.n, g.nz, g.L); double mx = 0; for (double x : ph) mx = std::max(mx, fabs(x)); double rm = 0; for (double x : rho) rm = std::max(rm, x); double grav = mx > 0 ? pg / dz / sqrt(bg(g, g.zi).mA2) / mx : 1; 
  c.say("%s folded=%d grav=%g dz=%g cube=%d", g.str().c_str(), fold, grav, dz, cube); Fld f(g); IcData ic = f.cosmos.ICData(); ic.beta = beta; f.cosmos.SetICData(ic); makePax(f, p, fold); { Quiet q; pType = (PropType)(PROP_BASE | PROP_RKN4); initPropagator(pType, f.s, g.pot, g.Ng); initGravity(f.s); }
  Grid o = psi(f); double w = 0, e = g.eps(); for (size_t i = 0; i < o.d.size(); i++) w = std::max(w, std::abs(o.d[i] - p.d[i] / sqrt(n0))); c.near(w, 0, (32 * e + 3e-16 * p.d.size()) * sqrt(rm), "normalise", "normalised field off by"); c.near(f.cosmos.ICData().beta, beta * n0, 1e-5 * fabs(beta) * n0 * (g.dp() ? 1e-6 : 1), "beta", "self-coupling after the normalisation");
  { Quiet q; calculateGraviPotential(); } bool fo = f.s->Folded(); int lz = f.lz(), z0 = f.z0(); w = 0; double kk = pow(g.L / (2 * M_PI), 2) * std::max(1., pow((double)g.nz / g.n, 2)), tol = 64 * e * rm * kk; for (int z = 0; z < lz; z++) for (int y = 0; y < g.n; y++) for (int x = 0; x < g.n; x++) w = std::max(w, fabs(f.real(f.s->m2Start(), f.idx(x, y, z, fo)) - ph[((size_t)(z + z0) * g.n + y) * g.n + x])); double wa; MPI_Allreduce(&w, &wa, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD); c.near(wa, 0, tol, "poisson", "potential off by");
  ic = f.cosmos.ICData(); ic.beta = 0; ic.grav = grav; f.cosmos.SetICData(ic); { Quiet q; propagate(f.s, dz); } prop.reset(); Grid u = psi(f); double t1 = *f.s->zV(); Cfg h = g; if (g.frw == 1) h.grav = grav; double q0 = sqrt(bg(h, g.zi).mA2) * grav * dz / 2, q1 = sqrt(bg(h, t1).mA2) * grav * dz / 2; w = 0; for (size_t i = 0; i < u.d.size(); i++) w = std::max(w, std::abs(u.d[i] - o.d[i] * std::polar(1., -(q0 + q1) * ph[i]))); c.near(w, 0, sqrt(rm) * (64 * e + (q0 + q1) * (tol + 1e-9 * mx) + (kind && grav > 0 ? 0 : 0)), "phase", "field after a step in its own gravity off by");
  c.nontrivial = kind != 0; c.label(cube ? "cubic" : "not cubic"); c.label("Ng" + std::to_string(g.Ng)); if (fold) c.label("folded"); }
