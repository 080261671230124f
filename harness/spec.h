// spectra by direct Fourier sums, shared by C16 and C17
#pragma once
#include "resample.h"
#include "spectrum/spectrum.h"
using namespace ref;
namespace {
typedef std::vector<cd> Vec;
int sg(int k, int n) { return k > n / 2 ? k - n : k; }
// L^3/(2N^2) sum of |F|^2 weight(kx,ky,kz) over the modes of each bin, and the error allowed for rounding errors scale*eps of the data
struct Spec { std::vector<double> v, tol; };
template <class W> Spec spectrum(const Cfg &g, Vec d, const std::vector<double> &scale, int nb, double mul, const W &w) {
  int n = g.n, nz = g.nz; double N = (double)n * n * nz, s2 = 0; for (double s : scale) s2 += s * s; for (auto &x : d) s2 += std::norm(x); double dk = 4 * g.eps() * sqrt(s2) * sqrt(N), rel = 8 * g.eps() + 4e-16 * N, nrm = g.L * g.L * g.L / (2 * N * N);
  dft(d, n, nz, -1); Spec r; r.v.assign(nb, 0); r.tol.assign(nb, 0);
  for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) { int kx = sg(x, n), ky = sg(y, n), kz = sg(z, nz); int b = floor(mul * sqrt((double)(kx * kx + ky * ky + kz * kz))); double a = std::abs(d[((size_t)z * n + y) * n + x]), q = nrm * w(kx, ky, kz); r.v[b] += q * a * a; r.tol[b] += q * (2 * a * dk + dk * dk + rel * a * a); }
  return r; }
void add(Spec &a, const Spec &b) { for (size_t i = 0; i < a.v.size(); i++) { a.v[i] += b.v[i]; a.tol[i] += b.tol[i]; } }
void same(Case &c, const char *nm, const double *got, const Spec &w) { for (size_t i = 0; i < w.v.size(); i++) if (!(std::abs(got[i] - w.v[i]) <= w.tol[i] + 1e-280)) { c.fail(nm, "%s spectrum bin %zu of %zu is %.10g, the modes of that bin have %.10g (tolerance %.2g)", nm, i, w.v.size(), got[i], w.v[i], w.tol[i]); return; } }
// number of bins; avoids cases in which a mode sits on a bin edge up to rounding
int drawBins(Case &c, int n, int nz, double &mul, int &nb) {
  int pm = (int)floor(sqrt(2. * (n / 2) * (n / 2) + (nz / 2) * (nz / 2))) + 1, ask = c.flip() ? -1 : (int)c.range(1, 2 * pm);
  if (ask > 0) for (int x = 0; x <= n / 2 && ask > 0; x++) for (int y = x; y <= n / 2 && ask > 0; y++) for (int z = 0; z <= nz / 2; z++) { double q = sqrt((double)(x * x + y * y + z * z)) * ask / pm; if (q > 0 && fabs(q - round(q)) < 1e-9 && !(ask == pm)) { ask = -1; break; } }
  nb = ask < 0 ? pm : ask; mul = ask < 0 ? 1. : (double)ask / pm; return ask; }
void geom(Case &c, Cfg &g, bool cubic, bool fold) {
  int np = commSize(); g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); g.Ng = c.pick<int>({1, 2, 1, 3}); int st = fold ? 8 : 2, n = c.range(4 / (fold ? 4 : 1), fold ? 2 : 8) * st; if (fold && n < 8) n = 8;
  auto ok = [&](int n) { return n % np == 0 && (n * n * g.prec) % 32 == 0 && n / np >= g.Ng; }; while (!ok(n)) n += st; g.n = n; g.nz = n;
  if (!cubic) { g.nz = np * c.range(g.Ng, std::min(n * g.Ng, 8)); if (g.nz % 2) g.nz = g.nz / np % 2 ? g.nz + np : g.nz; if (g.nz % 2 || g.nz / np > n * g.Ng) g.nz = n; }
  g.L = c.logreal(0.5, 40); g.zi = c.logreal(0.3, 4); g.frw = c.pick<double>({1, 1, 0.5, 2}); g.nqcd = c.pick<double>({0, 7, 3}); g.indi3 = c.chance(1, 6) ? 0 : c.logreal(0.1, 3); g.lambda = c.logreal(0.1, 100); }
std::vector<double> flat(size_t N, double v) { return std::vector<double>(N, v); }
SpecBin *specBin(Case &c, Fld &f, int ask) { MeasInfo mi; memset((void *)&mi, 0, sizeof mi); mi.nbinsspec = ask; Quiet q; return new SpecBin(f.s, c.flip(), mi); }
template <class G> void putMap(Fld &f, void *base, const G &val) { size_t S = f.s->Surf(); int n = f.n(); for (int z = 0; z < f.lz(); z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) f.putReal(base, z * S + (size_t)y * n + x, val(x, y, z + f.z0())); }
}
