// C24: the particle files for N-body codes against the density of the field
#include "ref.h"
#include "h5.h"
#include "gadget/gadget_output.h"
#include <mpi.h>
#include <omp.h>
#include <math.h>
#include <random>
extern char outDir[], gadName[];
using namespace ref;
// the library seeds its generators from std::random_device; here they follow from the case, so that a failure is replayed
static uint64_t rdSeed = 1; static thread_local uint64_t rdCase = 0, rdCount = 0;
std::random_device::result_type std::random_device::_M_getval() { if (rdCase != rdSeed) { rdCase = rdSeed; rdCount = 0; } return (unsigned)pbt::mix(rdSeed + 7919 * ++rdCount + 104729ULL * omp_get_thread_num() + 15485863ULL * commRank()); }
static const double PC = 3.08567758e16, OM = 0.3;
struct Snap { bool ok = false; std::vector<double> x, v, m, id, np, npt, mt; double box = 0, av = 0, l1 = 0; std::string type; size_t nm = 0; int es = 0; bool hasMass = false; };
static std::vector<double> arr(const H5 &h, const char *o, const char *a) { std::vector<double> w; if (!h.hasAttr(o, a)) return w; hid_t q = H5Aopen_by_name(h.f, o, a, H5P_DEFAULT, H5P_DEFAULT), s = H5Aget_space(q); w.resize(H5Sget_simple_extent_npoints(s)); H5Aread(q, H5T_NATIVE_DOUBLE, w.data()); H5Sclose(s); H5Aclose(q); return w; }
static std::string fileName() { return std::string(outDir) + "/" + gadName + ".hdf5"; }
static Snap load() { Snap s; H5 h(fileName()); if (!h.ok()) return s; s.ok = true; s.x = h.data("/PartType1/Coordinates", &s.es); s.v = h.data("/PartType1/Velocities"); s.hasMass = h.has("/PartType1/Masses"); if (s.hasMass) s.m = h.data("/PartType1/Masses"); s.id = h.data("/PartType1/ParticleIDs"); s.np = arr(h, "/Header", "NumPart_ThisFile"); s.npt = arr(h, "/Header", "NumPart_Total"); s.mt = arr(h, "/Header", "MassTable"); s.box = h.num("/Header", "BoxSize"); s.av = h.num("/Header", "AverageMass"); s.l1 = h.num("/Header", "L1_pc"); s.type = h.str("/Header", "GadType"); return s; }
struct Setup { Cfg g; int n; double l1; Grid re, im; size_t total() const { return (size_t)n * n * n; } double rho(int x, int y, int z) const { double a = re.at(x, y, z).real(), b = im.at(x, y, z).real(); return a * a + b * b; } double mean() const { double s = 0; for (size_t i = 0; i < total(); i++) s += std::norm(cd(re.d[i].real(), im.d[i].real())); return s / total(); } };
static Setup drawSetup(Case &c, bool halo) {
  Setup s; int np = commSize(); Cfg &g = s.g; g.type = FIELD_PAXION; g.prec = FIELD_SINGLE; g.Ng = c.pick<int>({1, 1, 2}); int q = np == 3 ? 12 : 8; s.n = q * c.range(1, np == 3 ? 1 : 2); if (np == 1 && c.chance(1, 4)) s.n = 4; g.n = g.nz = s.n; g.L = c.real(1, 8); g.zi = c.logreal(0.5, 6); g.frw = 1; g.nqcd = c.pick<double>({7, 4, 0}); g.nqcdr = g.nqcd; s.l1 = c.logreal(1e-3, 0.1);
  // densities: waves and noise around a mean, or nearly empty boxes with dense clumps
  int kind = c.range(0, 4); Content a = drawContent(c, 0.6, c.pick<cd>({cd(1, 0), cd(0.2, 0), cd(0, 0)})), b = drawContent(c, 0.6, c.pick<cd>({cd(0.3, 0), cd(0, 0)})); s.re = fillGrid(a, s.n, s.n, false, g.prec); s.im = fillGrid(b, s.n, s.n, false, g.prec);
  if (kind == 3 || kind == 4) { double w = kind == 4 ? 0 : 0.02; for (auto &x : s.re.d) x = (float)(x.real() * w); for (auto &x : s.im.d) x = (float)(x.real() * w); int k = c.range(1, 4); for (int i = 0; i < k; i++) { int X = c.range(0, s.n - 1), Y = c.range(0, s.n - 1), Z = c.range(0, s.n - 1); s.re.at(X, Y, Z) = (float)c.real(0.5, 4); } }
  if (!(s.mean() > 1e-6)) { for (auto &x : s.re.d) x = (float)(x.real() + 1); }
  (void)halo; c.label(kind >= 3 ? "clumps" : "smooth"); c.nontrivial = kind >= 3 || a.kind != 0 || b.kind != 0; return s; }
struct Field { Fld f; Field(const Setup &s) : f(s.g) { IcData ic = f.cosmos.ICData(); ic.L1_pc = s.l1; f.cosmos.SetICData(ic); scatterM(f, s.re); scatterV(f, s.im); f.s->exchangeGhosts(FIELD_M); f.s->exchangeGhosts(FIELD_V); } };
static double totalMass(double box) { double G = 6.67430e-11 * 1.98847e30 / (PC * PC * PC), H0 = 0.1 / PC; return OM * box * box * box * 3 * H0 * H0 / (8 * M_PI * G); }
static bool header(Case &c, const Snap &p, const Setup &s, size_t want, const char *type) {
  if (!c.check(p.ok, "file", "no file %s", fileName().c_str())) return false; double box = s.g.L * s.l1 / 0.7; 
  c.near(p.box, box, 1e-12 * box, "BoxSize", "BoxSize"); c.near(p.l1, s.l1, 1e-14, "L1_pc", "L1_pc"); c.near(p.av * want, totalMass(box), 1e-9 * totalMass(box), "AverageMass", "AverageMass times the number of particles"); c.check(p.type == type, "GadType", "type %s", p.type.c_str());
  c.check(p.np.size() == 2 && p.np[0] == 0 && p.np[1] == (double)want, "NumPart", "NumPart_ThisFile says %g, requested %zu", p.np.size() == 2 ? p.np[1] : -1., want); c.check(p.npt == p.np, "NumPart", "NumPart_Total unlike NumPart_ThisFile");
  if (!c.check(p.x.size() == 3 * want && p.v.size() == 3 * want && p.id.size() == want, "count", "%zu coordinates, %zu velocities, %zu labels for %zu particles", p.x.size(), p.v.size(), p.id.size(), want)) return false;
  std::vector<char> seen(want, 0); for (size_t i = 0; i < want; i++) { double d = p.id[i]; if (!(d >= 0 && d < (double)want) || d != floor(d) || seen[(size_t)d]) { c.fail("ids", "label %zu is %g: outside the range or repeated", i, d); break; } seen[(size_t)d] = 1; }
  for (size_t i = 0; i < 3 * want; i++) if (!(p.x[i] >= 0 && p.x[i] <= p.box * (1 + 1e-7))) { c.fail("box", "coordinate %d of particle %zu is %.9g, box %.9g", (int)(i % 3), i / 3, p.x[i], p.box); break; } return true; }
// one particle for every site
LAW(C24, sites, 500, 12000, NP1 | NP2 | NP3 | NP4) {
  Setup s = drawSetup(c, false); int n = s.n; bool vel = c.flip(), def = c.flip(); c.say("%s L1=%g velocities=%d defaults=%d", s.g.str().c_str(), s.l1, vel, def); Field F(s); rdSeed = c.seed();
  { Quiet q; createGadget_Void(F.f.s, nullptr, def ? 0 : n, def ? 0 : s.total(), vel, false, false); } Grid gm = gatherM(F.f), gv = gatherV(F.f); for (size_t i = 0; i < gm.d.size(); i++) if (gm.d[i] != s.re.d[i] || gv.d[i] != s.im.d[i]) { c.fail("source", "writing the particles changed the field at site %zu", i); break; }
  if (commRank() == 0) { Snap p = load(); if (header(c, p, s, s.total(), "void")) { double mean = s.mean(), M = totalMass(p.box), sum = 0, h = p.box / n, vr = 0; std::vector<char> hit(s.total(), 0); c.check(p.mt.size() == 2 && p.mt[1] == 0, "MassTable", "the mass table gives %g", p.mt.size() == 2 ? p.mt[1] : -1.);
    if (c.check(p.hasMass && p.m.size() == s.total(), "count", "%zu masses", p.m.size())) { double g0 = 0; 
    auto ph = [&](int x, int y, int z) { return cd(s.re.at(x, y, z).real(), s.im.at(x, y, z).real()); }; auto grad = [&](int x, int y, int z, int d) { cd w = ph(x, y, z); return 0.5 * (arg(ph(x + (d == 0), y + (d == 1), z + (d == 2)) * conj(w)) - arg(ph(x - (d == 0), y - (d == 1), z - (d == 2)) * conj(w))); };
    double num = 0, den = 0, vmax = 0; std::vector<double> gr(vel ? 3 * s.total() : 0);
    for (size_t i = 0; i < s.total(); i++) { double f[3]; int X[3]; bool on = true; for (int d = 0; d < 3; d++) { f[d] = p.x[3 * i + d] / h; X[d] = (int)lround(f[d]); on = on && std::abs(f[d] - X[d]) < 1e-4; X[d] = ((X[d] % n) + n) % n; } if (!on) { c.fail("place", "particle %zu is at (%.6g,%.6g,%.6g) cells", i, f[0], f[1], f[2]); break; }
      size_t j = ((size_t)X[2] * n + X[1]) * n + X[0]; if (hit[j]++) { c.fail("place", "two particles at (%d,%d,%d)", X[0], X[1], X[2]); break; } double w = s.rho(X[0], X[1], X[2]) / mean * M / s.total(); sum += p.m[i]; if (!(std::abs(p.m[i] - w) <= 2e-5 * w + 1e-6 * M / s.total())) { c.fail("mass", "particle at (%d,%d,%d) has mass %.9g, density gives %.9g", X[0], X[1], X[2], p.m[i], w); break; }
      for (int d = 0; d < 3; d++) { double q = p.v[3 * i + d]; if (!vel) { if (q != 0) { c.fail("velocity", "particle %zu moves (%g) although velocities were not asked for", i, q); } } else { double z = 0; double nn = std::abs(ph(X[0], X[1], X[2])); bool good = nn > 1e-3; for (int e = -1; e <= 1; e += 2) { cd o = ph(X[0] + e * (d == 0), X[1] + e * (d == 1), X[2] + e * (d == 2)); good = good && std::abs(o) > 1e-3; if (std::abs(std::abs(arg(o * conj(ph(X[0], X[1], X[2])))) - M_PI) < 1e-2) good = false; } if (good) { z = grad(X[0], X[1], X[2], d); gr[3 * i + d] = z; num += q * z; den += z * z; } else gr[3 * i + d] = NAN; } } }
    c.near(sum, M, 3e-5 * M, "total", "sum of the masses");
    // velocities follow the phase gradient with one common positive factor
    if (vel && den > 1e-6 * s.total()) { g0 = num / den; c.check(g0 > 0, "velocity", "velocities do not follow the phase gradient (factor %g)", g0); for (size_t i = 0; i < 3 * s.total(); i++) if (!std::isnan(gr[i])) { vmax = std::max(vmax, std::abs(gr[i])); if (!(std::abs(p.v[i] - g0 * gr[i]) <= 2e-3 * std::abs(g0) * (std::abs(gr[i]) + 0.02))) { c.fail("velocity", "velocity %d of particle %zu is %.9g; %.9g times the phase gradient %.9g is %.9g", (int)(i % 3), i / 3, p.v[i], g0, gr[i], g0 * gr[i]); break; } } c.label("velocities"); } (void)vr; } } remove(fileName().c_str()); } commSync(); }
// displaced inside their cells: each mass is the density interpolated to the place of the particle
LAW(C24, displaced, 400, 10000, NP1 | NP2 | NP3) {
  Setup s = drawSetup(c, false); int n = s.n; bool vel = s.g.Ng > 1; c.say("%s L1=%g velocities=%d", s.g.str().c_str(), s.l1, vel); Field F(s); rdSeed = c.seed();   // the gradients of the slice after the last one need a second one
  { Quiet q; createGadget_Void(F.f.s, nullptr, n, s.total(), vel, false, true); }
  if (commRank() == 0) { Snap p = load(); if (header(c, p, s, s.total(), "void") && c.check(p.m.size() == s.total(), "count", "%zu masses", p.m.size())) { double mean = s.mean(), M = totalMass(p.box), h = p.box / n, mx = 0; for (size_t i = 0; i < s.total(); i++) mx = std::max(mx, std::norm(cd(s.re.d[i].real(), s.im.d[i].real()))); std::vector<char> hit(s.total(), 0);
    for (size_t i = 0; i < s.total(); i++) { int X[3]; double u[3]; for (int d = 0; d < 3; d++) { double f = p.x[3 * i + d] / h; X[d] = (int)floor(f + 1e-5); u[d] = std::max(0., f - X[d]); X[d] = Grid::w(X[d], n); } size_t j = ((size_t)X[2] * n + X[1]) * n + X[0]; if (hit[j]++) { c.fail("place", "two particles in cell (%d,%d,%d)", X[0], X[1], X[2]); break; }
      double w = 0; for (int k = 0; k < 8; k++) w += ((k & 1) ? u[0] : 1 - u[0]) * ((k & 2) ? u[1] : 1 - u[1]) * ((k & 4) ? u[2] : 1 - u[2]) * s.rho(X[0] + (k & 1), X[1] + ((k >> 1) & 1), X[2] + (k >> 2)); w *= M / s.total() / mean; if (!(std::abs(p.m[i] - w) <= 1e-4 * mx / mean * M / s.total())) { c.fail("mass", "particle in cell (%d,%d,%d) at (%.3f,%.3f,%.3f) has mass %.9g, the interpolated density gives %.9g", X[0], X[1], X[2], u[0], u[1], u[2], p.m[i] / M * s.total(), w / M * s.total()); break; } }
    if (vel) { auto ph = [&](int x, int y, int z) { return cd(s.re.at(x, y, z).real(), s.im.at(x, y, z).real()); }; std::vector<double> gr(3 * s.total()); for (int z = 0; z < n; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) for (int d = 0; d < 3; d++) { cd w = ph(x, y, z), P = ph(x + (d == 0), y + (d == 1), z + (d == 2)), Q = ph(x - (d == 0), y - (d == 1), z - (d == 2)); double ap = arg(P * conj(w)), aq = arg(Q * conj(w)); bool good = std::min(std::abs(w), std::min(std::abs(P), std::abs(Q))) > 1e-3 && std::abs(std::abs(ap) - M_PI) > 1e-2 && std::abs(std::abs(aq) - M_PI) > 1e-2; gr[3 * (((size_t)z * n + y) * n + x) + d] = good ? 0.5 * (ap - aq) : NAN; }
      std::vector<double> w(3 * s.total()); double num = 0, den = 0; for (size_t i = 0; i < s.total(); i++) { int X[3]; double u[3]; for (int d = 0; d < 3; d++) { double f = p.x[3 * i + d] / h; X[d] = (int)floor(f + 1e-5); u[d] = std::max(0., f - X[d]); } for (int d = 0; d < 3; d++) { double a = 0; for (int k = 0; k < 8; k++) a += ((k & 1) ? u[0] : 1 - u[0]) * ((k & 2) ? u[1] : 1 - u[1]) * ((k & 4) ? u[2] : 1 - u[2]) * gr[3 * (((size_t)Grid::w(X[2] + (k >> 2), n) * n + Grid::w(X[1] + ((k >> 1) & 1), n)) * n + Grid::w(X[0] + (k & 1), n)) + d]; w[3 * i + d] = a; if (!std::isnan(a)) { num += a * p.v[3 * i + d]; den += a * a; } } }
      if (den > 1e-6 * s.total()) { double g0 = num / den; c.label("velocities"); for (size_t i = 0; i < 3 * s.total(); i++) if (!std::isnan(w[i]) && !(std::abs(p.v[i] - g0 * w[i]) <= 3e-3 * std::abs(g0) * (std::abs(w[i]) + 0.02))) { c.fail("velocity", "velocity %d of particle %zu is %.9g; %.9g times the interpolated phase gradient is %.9g", (int)(i % 3), i / 3, p.v[i], g0, g0 * w[i]); break; } } } } remove(fileName().c_str()); } commSync(); }
// equal masses: the number of particles of a site follows its density
LAW(C24, counts, 700, 20000, NP1 | NP2 | NP3 | NP4) {
  Setup s = drawSetup(c, true); int n = s.n, np = commSize(); size_t slab = (size_t)n * n; bool def = c.chance(1, 4); long k = c.range(1, std::max(1, 2 * n / np)); size_t want = def ? s.total() : slab * np * k; double sigma = c.pick<double>({0., 0.02, 0.05, 0., 1., 5., 20.}); c.say("%s L1=%g particles=%zu sigma=%g", s.g.str().c_str(), s.l1, want, sigma); Field F(s); rdSeed = c.seed();
  { Quiet q; createGadget_Halo(F.f.s, def ? 0 : n, def ? 0 : want, sigma == 0 ? 1e-6 : sigma); } Grid gm = gatherM(F.f), gv = gatherV(F.f); for (size_t i = 0; i < gm.d.size(); i++) if (gm.d[i] != s.re.d[i] || gv.d[i] != s.im.d[i]) { c.fail("source", "writing the particles changed the field at site %zu", i); break; }
  if (commRank() == 0) { Snap p = load(); if (header(c, p, s, want, "gad3")) { double mean = s.mean(), M = totalMass(p.box), h = p.box / n; c.check(!p.hasMass && p.mt.size() == 2 && p.mt[0] == 0, "MassTable", "masses in the file"); if (p.mt.size() == 2) c.near(p.mt[1] * want, M, 1e-9 * M, "total", "mass of a particle times their number"); for (double q : p.v) if (q != 0) { c.fail("velocity", "a particle moves with %g", q); break; }
    if (sigma <= 0.05) { std::vector<long> cnt(s.total(), 0); for (size_t i = 0; i < want; i++) { int X[3]; for (int d = 0; d < 3; d++) X[d] = Grid::w((int)floor(p.x[3 * i + d] / h), n); cnt[((size_t)X[2] * n + X[1]) * n + X[0]]++; }
      // every process rounds its own share to a whole number, the first takes what is left over
      for (size_t i = 0; i < s.total(); i++) { double w = std::norm(cd(s.re.d[i].real(), s.im.d[i].real())) / mean * want / s.total(), t = 4e-6 * w + 1e-6; if (!(cnt[i] >= floor(w - t) && cnt[i] <= ceil(w + t))) { c.fail("number", "site %zu has %ld particles, its density calls for %.6g", i, cnt[i], w); break; } } c.label("identified");
      if (sigma > 0 && want >= 500) for (int d = 0; d < 3; d++) { double v2 = 0; for (size_t i = 0; i < want; i++) { double u = p.x[3 * i + d] / h; u -= floor(u) + 0.5; v2 += u * u; } double r = sqrt(v2 / want), acc = 6 / sqrt(2. * want); c.check(std::abs(r / sigma - 1) < acc, "spread", "displacements along %d have spread %.4g cells, requested %.4g", d, r, sigma); } } } remove(fileName().c_str()); } commSync(); }
