// C25: scale factor, masses, their derivatives and integrals
#include "ref.h"
#include <functional>
using namespace ref;
namespace {
typedef std::function<double(double)> Fn;
// derivatives by central differences of fourth order
double d1(const Fn &f, double t, double h) { return (8 * (f(t + h) - f(t - h)) - (f(t + 2 * h) - f(t - 2 * h))) / (12 * h); }
double d2(const Fn &f, double t, double h) { return (-f(t + 2 * h) + 16 * f(t + h) - 30 * f(t) + 16 * f(t - h) - f(t - 2 * h)) / (12 * h * h); }
// Gauss-Legendre (5 points) on 64 pieces
double quad(const Fn &f, double a, double b) {
  static const double x[5] = {0, 0.5384693101056831, -0.5384693101056831, 0.9061798459386640, -0.9061798459386640}, w[5] = {0.5688888888888889, 0.4786286704993665, 0.4786286704993665, 0.2369268850561891, 0.2369268850561891};
  double s = 0; const int N = 64; for (int i = 0; i < N; i++) { double l = a + (b - a) * i / N, h = (b - a) / N / 2; for (int k = 0; k < 5; k++) s += w[k] * h * f(l + h * (1 + x[k])); } return s; }
void draw(Case &c, Cfg &g) {
  g.n = 8; g.nz = 2 * commSize(); while (g.n % commSize()) g.n += 8;
  g.frw = c.pick<double>({1, 1, 0.5, 2, 1.5, 0.7, 3, 0.1}); if (c.chance(1, 8)) { g.mink = true; g.frw = 0; } g.zi = c.logreal(0.1, 20); g.L = c.logreal(1, 50);
  g.nqcd = c.pick<double>({7, 0, 2, 4.5, 6.68, 8}); g.nqcdr = c.pick<double>({3, 0, 7, 1.5}); g.indi3 = c.logreal(1e-3, 1e3); g.lambda = c.logreal(0.1, 1e5); g.lz2e = c.pick<double>({0, 2, 1, 1.5});
  drawExpansion(c, g); double R = bg(g, g.zi).R;
  switch (c.range(0, 4)) { case 0: break; case 1: g.zth = R * c.logreal(0.3, 3); break; case 2: g.zth = R * c.logreal(0.2, 1.5); g.zrs = g.zth * c.logreal(1, 3); break; case 3: g.zth = R * c.logreal(0.3, 1); g.zrs = std::max(g.zth, R * c.real(0.5, 1)); break; default: g.zth = R * c.logreal(0.3, 3); g.zrs = g.zth * 0.5; }
}
// a time interval around t within which the mass law does not change
bool smooth(const Cfg &g, const Fn &R, double t, double h) { if (g.uec) return true; double a = R(t - h), b = R(t + h); for (double q : {g.zth, g.zrs}) if (q >= a && q <= b) return false; return true; }
struct Table { std::vector<double> e, R, T, Rpp, chi, fa; Table() { std::string p = std::string(getenv("JAXIONS_DIR")) + "/include/cosmos/jaxi-cosmo.txt"; FILE *f = fopen(p.c_str(), "r"); if (!f) return; char b[400]; if (!fgets(b, 400, f) || !fgets(b, 400, f)) return; double v[6]; while (fscanf(f, "%lf %lf %lf %lf %lf %lf", v, v + 1, v + 2, v + 3, v + 4, v + 5) == 6) e.push_back(v[0]), R.push_back(v[1]), T.push_back(v[2]), Rpp.push_back(v[3]), chi.push_back(v[4]), fa.push_back(v[5]); fclose(f); } };
}
LAW(C25, expansion, 12000, 200000, NP1) {
  Cfg g; draw(c, g); c.say("%s", g.str().c_str()); Quiet q; Fld f(g); Scalar *s = f.s; Cosmos &k = *s->BckGnd(); double t = g.zi, R = k.R(t); Fn fR = [&](double x) { return k.R(x); };
  double tn = t * c.real(0.7, 1.4);
  if (!g.uec) { double w = g.grav > 0 && !g.mink ? t * (1 + g.grav * t / 4) : pow(t, g.mink ? 0 : g.frw); c.near(R, w, 1e-12 * w, "R", "R(%g)", t); }
  c.check(std::isfinite(R) && R > 0, "positive", "R(%g) = %g", t, R);
  double h = t * (g.uec ? 2e-3 : 1e-3), tol = g.uec ? 3e-4 : 1e-9; c.near(k.Rp(t), d1(fR, t, h) / R, tol / t, "Rp", "R'/R at %g", t);
  if (!g.uec) c.near(k.Rpp(t), d2(fR, t, h) / R, 3e-8 / (t * t), "Rpp", "R''/R at %g", t);
  c.check(*s->RV() == R && *s->zV() == t, "field", "the field was made at time %g with R %g instead of %g and %g", *s->zV(), *s->RV(), t, R);
  c.check(s->Rfromct(tn) == k.R(tn), "field", "Rfromct(%g) is %g, R is %g", tn, s->Rfromct(tn), k.R(tn));
  *s->zV() = tn; s->updateR(); c.check(*s->RV() == k.R(tn), "field", "after moving to %g the field has R %g instead of %g", tn, *s->RV(), k.R(tn)); c.near(s->Rpp(), k.Rpp(tn), 0, "field", "Rpp of the field at %g", tn);
  c.nontrivial = !g.mink; c.label(g.mink ? "static" : g.uec ? "tabulated" : g.grav > 0 ? "with matter" : "power law");
}
LAW(C25, masses, 12000, 200000, NP1) {
  Cfg g; draw(c, g); g.pot = (VqcdType)(c.pick<int>({V_QCD1, V_QCD0, V_QCD2, V_QCDC, V_QCDL}) | c.pick<int>({V_PQ1, V_PQ2, V_PQ1})); c.say("%s", g.str().c_str()); Quiet q; Fld f(g); Scalar *s = f.s; Cosmos &k = *s->BckGnd(); double t = g.zi;
  Fn fR = [&](double x) { return k.R(x); }, fm = [&](double x) { return k.AxionMass2(x); }, lg = [&](double x) { return 0.5 * log(k.AxionMass2(x)) + log(k.R(x)); }; Bg b = bg(g, t); double m2 = k.AxionMass2(t), h = t * (g.uec ? 1e-5 : 1e-3);
  c.check(std::isfinite(m2) && m2 >= 0, "positive", "axion mass squared %g at %g", m2, t);
  c.near(m2, b.mA2, 1e-10 * b.mA2, "axion", "axion mass squared at R=%g", b.R);
  bool sm = smooth(g, fR, t, 2.01 * h); double rel = g.uec ? 2e-3 : 1e-6;
  if (sm) { c.near(k.DAxionMass2Dct(t), d1(fm, t, h), rel * m2 / t, "derivative", "time derivative of the axion mass squared"); c.near(k.DlogMARDlogct(t), t * d1(lg, t, h), rel, "logderivative", "d log(mA R)/d log t"); }
  if (!g.uec) for (double q : {g.zth, g.zrs}) if (q > 1e-6 && q < 1e7 && g.frw > 0 && !g.mink && (q == g.zth || g.zrs >= g.zth)) {   // continuous where the law changes
    double lo = 1e-9, hi = 1e9; for (int i = 0; i < 200; i++) { double md = sqrt(lo * hi); (k.R(md) < q ? lo : hi) = md; } double a = k.AxionMass2(lo * (1 - 1e-9)), e = k.AxionMass2(hi * (1 + 1e-9)); c.check(fabs(a - e) <= 1e-6 * a, "continuous", "mass squared jumps from %.10g to %.10g at R=%g", a, e, q); }
  c.near(s->AxionMassSq(), m2, 0, "field", "mass squared of the field"); c.near(s->AxionMass(), sqrt(m2), 1e-14 * sqrt(m2), "field", "mass of the field"); c.near(s->AxionMassSq(t * 1.3), k.AxionMass2(t * 1.3), 0, "field", "mass squared at another time");
  double lam = g.lambda / pow(b.R, g.lz2e); c.near(k.LambdaP(t), lam, 1e-12 * lam, "lambda", "coupling at R=%g", b.R); c.near(s->LambdaP(), lam, 1e-12 * lam, "field", "coupling of the field");
  // the saxion mass squared is the second derivative of the potential at its minimum
  double fac = (g.pot & V_PQ) == V_PQ2 ? 8 : 2; c.near(k.SaxionMass2(t), fac * lam, 1e-12 * lam * fac, "saxion", "saxion mass squared"); c.near(s->SaxionMassSq(), fac * lam, 1e-12 * lam * fac, "field", "saxion mass squared of the field");
  double msa = sqrt(2 * lam) * b.R * g.L / g.n; c.near(s->Msa(), msa, 1e-12 * msa, "msa", "saxion mass in units of the lattice spacing");
  c.nontrivial = sm && m2 > 0 && (g.uec || g.nqcd != 0); c.label(g.uec ? "tabulated" : b.R < g.zth ? "growing" : g.zrs >= g.zth && b.R > g.zrs ? "restored" : "saturated"); if (!sm) c.label("at a threshold");
}
// vacuum shift of the saxion: the minimum of the tilted potential, now and at any other time
LAW(C25, shift, 6000, 100000, NP1) {
  Cfg g; draw(c, g); bool p2 = c.chance(1, 3); g.pot = (VqcdType)(c.pick<int>({V_QCD1, V_QCD1, V_QCD0, V_QCD2}) | (p2 ? V_PQ2 : V_PQ1)); double tn = g.zi * c.real(0.6, 1.6); Bg b0 = bg(g, g.zi); double al = c.logreal(1e-4, 100); if (!g.uec) g.indi3 *= sqrt(al * b0.lam / b0.mA2);
  c.say("%s other time %g", g.str().c_str(), tn); Quiet q; Fld f(g); for (int w = 0; w < 2; w++) { double t = w ? tn : g.zi; Bg b = bg(g, t); double s = w ? f.s->Saskia(t) : f.s->Saskia(), a = b.mA2 / b.lam; 
    if ((g.pot & V_QCD) != V_QCD1) { c.check(s == 0, "none", "shift %g of a potential without tilt", s); continue; }
    double r = 1 + s, F = p2 ? 2 * (pow(r, 7) - r * r * r) : r * r * r - r, D = p2 ? 14 * pow(r, 6) - 6 * r * r : 3 * r * r - 1; double err = (F - a) / D;   // Newton's correction to the root
    if (a > (p2 ? 8 : 1e6)) continue;   // PQ2 is a rational fit good for small ratios
    c.check(fabs(err) <= (p2 ? (a < 1 ? 1e-4 : a < 2 ? 1e-3 : 0.03) * s + 1e-12 : 1e-6 * (1 + a)), w ? "other-time" : "minimum", "shift %.10g at time %g is off the minimum of the potential by %.3g (mA2/lambda %g)", s, t, err, a); }
  c.nontrivial = (g.pot & V_QCD) == V_QCD1;
}
LAW(C25, integrals, 6000, 100000, NP1) {
  Cfg g; draw(c, g); g.uec = false; g.grav = -1; g.zrs = 1e30; int n = c.range(0, 4); Bg b = bg(g, g.zi); double z0 = g.zi, z = z0 * c.logreal(0.5, 2); c.say("%s from %g to %g, R^%d", g.str().c_str(), z0, z, n); Quiet q; Fld f(g); Cosmos &k = *f.s->BckGnd(); (void)b;
  double zs = g.frw > 0 && !g.mink ? pow(g.zth, 1 / g.frw) : 1e300; Fn fm = [&](double x) { return k.AxionMass2(x) * pow(k.R(x), n); }, fw = [&](double x) { return (z - x) * fm(x); };
  auto I = [&](const Fn &u) { bool in = (zs - z0) * (zs - z) < 0; return in ? quad(u, z0, zs) + quad(u, zs, z) : quad(u, z0, z); };
  double A = I(fm), B = I(fw), sa = fabs(z - z0) * std::max(fm(z0), fm(z)), sb = sa * fabs(z - z0), r = 1e-10 + 1e-15 * std::max(z0, z) / (1e-300 + fabs(z - z0)), r2 = 1e-10 + 1e-15 * pow(std::max(z0, z) / (1e-300 + fabs(z - z0)), 2);
  c.near(f.s->IAxionMassSqn(z0, z, n), A, r * sa * 10, "first", "integral of mA2 R^%d", n); c.near(f.s->IIAxionMassSqn(z0, z, n), B, r2 * sb * 10, "second", "double integral of mA2 R^%d", n);
  c.nontrivial = z != z0; c.label((zs - z0) * (zs - z) < 0 ? "across the threshold" : z0 > zs ? "saturated" : "growing"); c.label(z > z0 ? "forward" : "backward");
}
LAW(C25, table, 60, 2000, NP1) {
  static Table T; double lf = c.real(8, 17); Cosmos k; { Quiet q; k.SetUeC(true); k.SetFA(pow(10., lf)); k.Setup(); } c.say("log10 fA = %g", lf); if (T.e.size() < 10) { c.fail("file", "no cosmology table"); return; }
  size_t N = T.e.size(); 
  { Quiet q; c.near(k.R(1), 1, 1e-9, "unit", "R(1)"); c.near(k.TopSus(1), 1, 1e-9, "unit", "mass squared at time 1"); 
  // the time unit: where the table's decay constant equals the requested one
  double lo = 1e-9, hi = 1; { // find eta1 from R: R(eta/eta1)=R_table/R1 at the last entry, T at 1
    size_t j = 0; while (j + 2 < N && T.fa[j + 1] < lf) j++; lo = T.e[j]; hi = T.e[j + 1]; }
  double T1 = k.T(1); c.check(T1 > 0, "temperature", "T(1) = %g", T1); size_t j = 0; while (j + 2 < N && T.fa[j + 1] < lf) j++; c.check(T1 <= T.T[j] * 1.0001 && T1 >= T.T[j + 1] * 0.9999, "unit", "T(1) = %g is not between %g and %g, the temperatures around log10 fA = %g", T1, T.T[j], T.T[j + 1], lf);
  // refine eta1: R is monotonic, T(eta/eta1) is the table at the table's times
  double best = 0, e1 = 0; (void)best; for (int it = 0; it < 200; it++) { e1 = sqrt(lo * hi); double tt = k.T(T.e[N / 2] / e1); (tt > T.T[N / 2] ? hi : lo) = e1; }
  double Rn = T.R[N / 2] / k.R(T.e[N / 2] / e1), cn = T.chi[N / 2] / k.TopSus(T.e[N / 2] / e1); double pr = 0, pt = 1e300;
  for (size_t i = 0; i < N; i++) { double t = T.e[i] / e1, R = k.R(t), X = k.TopSus(t), tt = k.T(t), pp = k.Rpp(t) * t * t; c.near(R * Rn, T.R[i], 1e-5 * T.R[i], "R", "R at the table's time %g", T.e[i]); c.near(X * cn, T.chi[i], 1e-4 * T.chi[i] + 1e-7 * (i + 1 < N ? T.chi[i + 1] : 0), "chi", "susceptibility at the table's time %g", T.e[i]); c.near(tt, T.T[i], 1e-4 * T.T[i], "T", "temperature at the table's time %g", T.e[i]); c.near(pp, T.Rpp[i], 1e-4, "Rpp", "eta^2 R''/R at the table's time %g", T.e[i]); c.check(R > pr, "monotonic", "R falls at the table's time %g", T.e[i]); c.check(tt < pt, "monotonic", "T rises at the table's time %g", T.e[i]); pr = R; pt = tt; if (c.fails.size() > 4) break; }
  for (size_t i = 0; i + 1 < N && c.fails.size() < 4; i++) for (int u = 1; u < 4; u++) { double t = (T.e[i] + u * (T.e[i + 1] - T.e[i]) / 4) / e1, R = k.R(t) * Rn; c.check(R > T.R[i] && R < T.R[i + 1], "between", "R leaves its table values between %g and %g", T.e[i], T.e[i + 1]); double X = k.AxionMass2(t); c.check(X > 0, "positive", "mass squared %g at time %g (table %g)", X, t, T.e[i]); 
    if (T.e[i] > 3 && i + 2 < N) { double h = 0.02 * t, rr = d2([&](double x) { return k.R(x); }, t, h) / k.R(t) * t * t; c.near(k.Rpp(t) * t * t, rr, 0.1, "Rpp", "R''/R against the second derivative of R near the table's time %g", T.e[i]); } } }
  c.nontrivial = true;
}
