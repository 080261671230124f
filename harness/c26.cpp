// C26: WKB evolution of an axion field against the adiabatic formula with independently integrated phases, and against the exact evolution of the modes
#include "resample.h"
#include "WKB/WKB.h"
#include "scalar/thetaScalar.h"
#include "scalar/mendTheta.h"
#include "fft/fftCode.h"
#include <mpi.h>
#include <map>
#include <array>
using namespace ref;
namespace {
struct Law { double indi3, n, zc; double m(double z) const { return indi3 * pow(std::min(z, zc), n / 2) * z; } double dm2(double z, bool sat) const { double q = m(z); return (sat ? 2 : n + 2) * q * q / z; } };   // conformal mass, d(m^2)/dz
double w(const Law &l, double k2, double z) { double q = l.m(z); return sqrt(k2 + q * q); }
template <class F> double gauss(const F &f, double a, double b) { static const double X[5] = {0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717}, W[5] = {0.2955242247147529, 0.2692667193099963, 0.2190863625159820, 0.1494513491505806, 0.0666713443086881}; double s = 0; const int P = 12; double r = pow(b / a, 1. / P); for (int i = 0; i < P; i++) { double l = a * pow(r, i), h = a * pow(r, i + 1), c = (l + h) / 2, d = (h - l) / 2; for (int j = 0; j < 5; j++) s += d * W[j] * (f(c + d * X[j]) + f(c - d * X[j])); } return s; }
double phase(const Law &l, double k2, double a, double b) { auto f = [&](double z) { return w(l, k2, z); }; if (a < l.zc && l.zc < b) return gauss(f, a, l.zc) + gauss(f, l.zc, b); return gauss(f, a, b); }
double zeta(const Law &l, double k2, double z, bool sat) { return l.dm2(z, sat) / (4 * pow(w(l, k2, z), 3)); }
void step(const Law &l, double k2, double a, double b, cd &M, cd &V) { double w1 = w(l, k2, a), w2 = w(l, k2, b); if (w1 == 0) { M += V * (b - a); return; } const cd I(0, 1); double z1 = zeta(l, k2, a, a >= l.zc), z2 = zeta(l, k2, b, b > l.zc || a >= l.zc), q = sqrt(w1 / w2), p = phase(l, k2, a, b); cd D = V / (I * w1), ap = 0.5 * (M * (1. - I * z1) + D), am = 0.5 * (M * (1. + I * z1) - D); ap *= q * std::polar(1., p); am *= q * std::polar(1., -p); M = ap + am; V = (ap - am + I * z2 * M) * I * w2; }
}

static int size_(Case &c, const Cfg &g) { int np = commSize(), la = g.dp() ? 4 : 8, n = la * c.range(1, 20 / la); while (n % np || n / np < g.Ng) n += la; return n; }
static Law masses(Case &c, Cfg &g, double zE, int &reg) { g.nqcd = c.pick<double>({7, 0, 3, 6.68, 2}); g.indi3 = c.chance(1, 8) ? 0 : c.logreal(0.05, 3); reg = c.range(0, 2); g.zth = reg == 0 ? 1e8 : reg == 1 ? g.zi + (zE - g.zi) * c.real(0.05, 0.95) : g.zi * c.real(0.2, 0.99); return Law{g.indi3, g.nqcd, g.zth}; }
static const char *regName(int r) { return r == 0 ? "growing mass" : r == 1 ? "through the threshold" : "saturated mass"; }
static int sg(int k, int n) { return k > n / 2 ? k - n : k; }
// modes of (m,v) at a evolved to each time in turn, compared with (A,B)
static bool compare(Case &c, const Cfg &g, const Law &l, const Grid &m, const Grid &v, const Grid &a, const Grid &b, double zi, const std::vector<double> &t, double eps) {
  int n = g.n; auto M = m.d, V = v.d, A = a.d, B = b.d; dft(M, n, n, -1); dft(V, n, n, -1); dft(A, n, n, -1); dft(B, n, n, -1); double k0 = 2 * M_PI / g.L, nm = 0, nv = 0, zE = t.back(), pm = l.m(zE) * zE; size_t i = 0; for (auto &x : M) nm = std::max(nm, std::abs(x)); for (auto &x : V) nv = std::max(nv, std::abs(x));
  for (int z = 0; z < n; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++, i++) { int kx = sg(x, n), ky = sg(y, n), kz = sg(z, n), k = kx * kx + ky * ky + kz * kz; cd p = M[i], q = V[i]; double k2 = k0 * k0 * k, w1 = w(l, k2, zi), w2 = w(l, k2, zE), amp = (std::abs(p) + (w1 > 0 ? std::abs(q) / w1 : std::abs(q) * zE)) * (1 + (w1 > 0 ? zeta(l, k2, zi, true) + zeta(l, k2, zi, false) : 0)), z2 = w2 > 0 ? zeta(l, k2, zE, false) + zeta(l, k2, zE, true) : 0, fac = w2 > 0 ? sqrt(w1 / w2) : 1, s = zi;
    for (double e : t) { step(l, k2, s, e, p, q); s = e; }
    double fl = 64 * eps * (t.size() + 1), tp = 1e-11 * (1 + pm + sqrt(k2) * zE) + fl, ef = std::abs(A[i] - p), ev = std::abs(B[i] - q), tf = tp * fac * amp + fl * (1 + z2) * (nm + nv / k0) * (1 + fac), tv = (1 + z2) * (tp * fac * amp * (w2 + 1) + fl * (nm + nv / k0) * (1 + fac) * (w2 + 1));
    if (!(ef <= tf) || !(ev <= tv)) { c.fail(!(ef <= tf) ? "field" : "velocity", "mode (%d %d %d): psi %g%+gi psi' %g%+gi, expected %g%+gi and %g%+gi (tolerance %.2g, %.2g) from %g%+gi and %g%+gi, phase %.8g", kx, ky, kz, A[i].real(), A[i].imag(), B[i].real(), B[i].imag(), p.real(), p.imag(), q.real(), q.imag(), tf, tv, M[i].real(), M[i].imag(), V[i].real(), V[i].imag(), phase(l, k2, zi, zE)); return false; } }
  return true; }
static std::vector<double> legs(Case &c, double zi) { int k = c.range(1, 3); std::vector<double> t; double z = zi; for (int i = 0; i < k; i++) { z *= c.chance(1, 6) ? 1 : c.logreal(1.001, k == 1 ? 4 : 2); t.push_back(z); } return t; }
// one field evolved in place, in one or more legs, each with its own WKB object as the programs do
LAW(C26, modes, 180, 6000, NP1 | NP2 | NP3 | NP4) {
  Cfg g; g.prec = c.pick<FieldPrecision>({FIELD_DOUBLE, FIELD_SINGLE}); g.Ng = c.pick<int>({1, 2, 1, 3}); g.n = g.nz = size_(c, g); g.L = c.logreal(1, 30); g.zi = c.logreal(0.5, 10); auto t = legs(c, g.zi); int reg; Law l = masses(c, g, t.back(), reg); bool conv = c.chance(1, 3), fold = c.flip(); g.type = conv ? FIELD_SAXION : FIELD_AXION;
  Content km = drawContent(c, c.logreal(0.1, 3) * (conv ? 1 : g.zi), c.real(-1, 1)), kv = drawContent(c, c.logreal(0.1, 3), c.real(-1, 1)); double pm = l.m(t.back()) * t.back(); if (pm > 3e4) { c.discarded = true; return; } c.say("%s to %.4g in %zu legs folded=%d converted=%d", g.str().c_str(), t.back(), t.size(), fold, conv);
  Fld f(g); Scalar *s = f.s; int n = g.n; Grid m(n, n), v(n, n); if (conv) { Grid th = fillGrid(km, n, n, false, g.prec), dv = fillGrid(kv, n, n, false, g.prec); for (size_t i = 0; i < m.d.size(); i++) { cd e = std::polar(g.zi, th.d[i].real()); m.d[i] = rndp(e, g.prec); v.d[i] = rndp(e * cd(0.3, dv.d[i].real()), g.prec); } } else { m = fillGrid(km, n, n, false, g.prec); v = fillGrid(kv, n, n, false, g.prec); }
  if (fold) f.fold(); scatterM(f, m); scatterV(f, v); if (conv) { Quiet q; cmplxToTheta(s, 0, false); m = gatherM(f); v = gatherV(f); }
  for (double e : t) { Quiet q; AxionWKB::WKB wkb(s, s); wkb(e); } c.near(*s->zV(), t.back(), 1e-13 * t.back(), "time", "%.12g"); c.near(*s->RV(), t.back(), 1e-13 * t.back(), "scale", "%.12g");
  compare(c, g, l, m, v, gatherM(f), gatherV(f), g.zi, t, g.eps()); c.nontrivial = km.kind && kv.kind; c.label(regName(reg)); if (conv) c.label("converted"); if (t.size() > 1) c.label("several legs"); }
static void keep_(Scalar *p) { static std::unique_ptr<Scalar> q; q.reset(p); }
// the modes kept in a second field and evolved from the initial time to each of several times
LAW(C26, spare, 80, 3000, NP1 | NP2 | NP3 | NP4) {
  Cfg g; g.type = FIELD_AXION; g.prec = c.pick<FieldPrecision>({FIELD_DOUBLE, FIELD_SINGLE}); g.Ng = c.pick<int>({1, 2, 1, 3}); g.n = g.nz = size_(c, g); g.L = c.logreal(1, 30); g.zi = c.logreal(0.5, 10); auto t = legs(c, g.zi); int reg; Law l = masses(c, g, t.back(), reg); if (reg == 1) { g.zth = 1e8; l.zc = 1e8; reg = 0; } bool fold = c.flip();
  Content km = drawContent(c, c.logreal(0.1, 3) * g.zi, c.real(-1, 1)), kv = drawContent(c, c.logreal(0.1, 3), c.real(-1, 1)); double pm = l.m(t.back()) * t.back(); if (pm > 3e4) { c.discarded = true; return; } c.say("%s to %.4g in %zu legs folded=%d", g.str().c_str(), t.back(), t.size(), fold);
  Fld f(g); Scalar *s = f.s; int n = g.n; Grid m = fillGrid(km, n, n, false, g.prec), v = fillGrid(kv, n, n, false, g.prec); if (fold) f.fold(); scatterM(f, m); scatterV(f, v);
  { Quiet q; Scalar *tmp = new Scalar(s->BckGnd(), n, n / commSize(), g.prec, DEV_CPU, g.zi, true, commSize(), FIELD_WKB, LAMBDA_FIXED, g.Ng); AxionWKB::WKB wkb(s, tmp); for (double e : t) wkb(e); keep_(tmp); }
  c.near(*s->zV(), t.back(), 1e-13 * t.back(), "time", "%.12g"); compare(c, g, l, m, v, gatherM(f), gatherV(f), g.zi, {t.back()}, g.eps()); c.nontrivial = km.kind && kv.kind; c.label(regName(reg)); if (t.size() > 1) c.label("several times"); }
// modes that change slowly follow the exact solution of psi'' + w^2 psi = 0, up to the adiabatic parameter
LAW(C26, exact, 70, 2500, NP1 | NP2) {
  Cfg g; g.type = FIELD_AXION; g.prec = FIELD_DOUBLE; g.Ng = 1; g.n = g.nz = 4 * commSize() * c.range(1, 2); g.L = c.logreal(1, 10); g.zi = c.logreal(1, 8); double zE = g.zi * c.logreal(1.05, 2.5); int reg; Law l = masses(c, g, zE, reg); double pm = l.m(zE) * zE; if (pm > 2000) { c.discarded = true; return; } c.say("%s to %.4g", g.str().c_str(), zE);
  Fld f(g); Scalar *s = f.s; int n = g.n; Content km{1, c.seed(), g.zi, 0}, kv{1, c.seed(), g.zi, 0}; Grid m = fillGrid(km, n, n, false, g.prec), v = fillGrid(kv, n, n, false, g.prec); scatterM(f, m); scatterV(f, v); { Quiet q; AxionWKB::WKB wkb(s, s); wkb(zE); }
  Grid a = gatherM(f), b = gatherV(f); auto M = m.d, V = v.d, A = a.d, B = b.d; dft(M, n, n, -1); dft(V, n, n, -1); dft(A, n, n, -1); dft(B, n, n, -1); double k0 = 2 * M_PI / g.L; struct T { double a, b, c, d; }; std::map<int, T> tr; size_t i = 0; int slow = 0;
  for (int z = 0; z < n; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++, i++) { int k = sg(x, n) * sg(x, n) + sg(y, n) * sg(y, n) + sg(z, n) * sg(z, n); double k2 = k0 * k0 * k, w1 = w(l, k2, g.zi), w2 = w(l, k2, zE); if (w1 == 0) continue; double ze = 0; for (int j = 0; j <= 40; j++) { double q = g.zi * pow(zE / g.zi, j / 40.); ze = std::max(ze, zeta(l, k2, q, q > l.zc)); } bool kink = g.zi < l.zc && l.zc < zE && g.nqcd > 0; if (kink) ze = std::max(ze, zeta(l, k2, l.zc, false)); if (ze > 0.03) continue; slow++;
    if (!tr.count(k)) { T q; for (int j = 0; j < 2; j++) { double y0 = j == 0, y1 = j == 1; std::vector<std::array<double, 2>> sp; if (kink) sp = {{g.zi, l.zc}, {l.zc, zE}}; else sp = {{g.zi, zE}}; for (auto &e : sp) { int N = 20 + (int)(std::max(w1, w2) * 2 * (e[1] - e[0]) / 0.02); double h = (e[1] - e[0]) / N; auto W = [&](double z) { double q = w(l, k2, z); return -q * q; }; for (int u = 0; u < N; u++) { double s0 = e[0] + u * h, A0 = W(s0), A1 = W(s0 + h / 2), A2 = W(s0 + h), k1 = y1, l1 = A0 * y0, k2_ = y1 + h / 2 * l1, l2 = A1 * (y0 + h / 2 * k1), k3 = y1 + h / 2 * l2, l3 = A1 * (y0 + h / 2 * k2_), k4 = y1 + h * l3, l4 = A2 * (y0 + h * k3); y0 += h / 6 * (k1 + 2 * k2_ + 2 * k3 + k4); y1 += h / 6 * (l1 + 2 * l2 + 2 * l3 + l4); } } (j ? q.b : q.a) = y0; (j ? q.d : q.c) = y1; } tr[k] = q; }
    T q = tr[k]; cd p = M[i] * q.a + V[i] * q.b, r = M[i] * q.c + V[i] * q.d; double amp = (std::abs(M[i]) + std::abs(V[i]) / w1) * sqrt(w1 / w2) + 1e-9, tol = 1e-7 + 2 * ze * (1 + log(std::max(w1, w2) / std::min(w1, w2))); c.near(std::abs(A[i] - p) / amp, 0, tol, "field", "%.3g"); c.near(std::abs(B[i] - r) / amp / w2, 0, tol, "velocity", "%.3g"); double E1 = (std::norm(V[i]) + w1 * w1 * std::norm(M[i])) / w1, E2 = (std::norm(B[i]) + w2 * w2 * std::norm(A[i])) / w2; c.near(E2 / (E1 + 1e-30), 1, 8 * ze + 1e-6, "invariant", "%.6g"); if (c.fails.size()) return; }
  c.nontrivial = slow > 3; c.label(regName(reg)); }
