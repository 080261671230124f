// C15: string positions, lengths, velocities and energies against the lattice field
#include "strfield.h"
#include "scalar/folder.h"
#include <mpi.h>
using namespace strf;
namespace {
void geom(Case &c, Cfg &g, bool cubic) { int np = commSize(); g.type = FIELD_SAXION; g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); g.Ng = c.pick<int>({1, 2, 1, 3}); int la = g.dp() ? 2 : 4; g.n = la * c.range(std::max(1, 4 / la), 20 / la); while (g.n % np || g.n / np < g.Ng) g.n += la; g.nz = cubic ? g.n : np * c.range(g.Ng, g.Ng + 6); while (g.nz < 2) g.nz += np; g.L = c.logreal(0.5, 40); g.zi = c.logreal(0.3, 4); g.frw = c.pick<double>({1, 1, 2, 0.5, 1.5}); g.lambda = c.logreal(0.1, 100); }
struct Net { int kind; Content noise, wave; uint64_t sd; double phase; };
Net drawNet(Case &c, double R) { Net w; w.kind = c.range(0, 3); w.sd = c.seed(); w.noise = Content{4, c.seed(), R, 0}; w.wave = drawContent(c, R, 0); w.phase = c.real(-M_PI, M_PI); return w; }
Grid fieldOf(const Net &w, const Cfg &g, double R) { int n = g.n; Grid m(n, g.nz); auto H = [&](uint64_t a) { return (hreal(mix(w.sd * 977 + a)) + 1) / 2; }; int ax = w.sd % 3;
  for (int z = 0; z < g.nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) { cd v; switch (w.kind) { case 0: v = w.noise(x, y, z, n, g.nz); break; case 1: v = w.wave(x, y, z, n, g.nz); break;
      case 2: { double u = ax == 0 ? y : x, t = ax == 2 ? y : z, U = n, W = ax == 2 ? n : g.nz, a = 0; for (int k = 0; k < 2 + 2 * (int)(w.sd >> 8) % 2; k++) a += (k % 2 ? 1 : -1) * atan2(sin(M_PI * (t - H(20 + k) * W) / W), sin(M_PI * (u - H(10 + k) * U) / U)); v = std::polar(R, a + w.phase); break; }
      default: { double rx = x - (0.3 + 0.4 * H(1)) * n, ry = y - (0.3 + 0.4 * H(2)) * n, rz = z - (0.3 + 0.4 * H(3)) * g.nz, rho = hypot(rx, ry) - (0.15 + 0.15 * H(4)) * n; v = std::polar(R, atan2(rz, rho)) * std::polar(1., w.phase); } }
    if (std::abs(v) < 1e-3 * R) v += 0.01 * R; for (int k = 1; std::min(fabs(v.real()), fabs(v.imag())) < 1e-4 * R; k++) v += cd(0.003, 0.002) * (k * R); m.at(x, y, z) = rndp(v, g.prec); } return m; }
Meas measure(const Grid &m, const Grid *v, const Cfg &g, double R, double H, double ms2, int z0, int lz) {
  Meas r; int n = g.n, nz = g.nz; double tol = g.dp() ? 1e-9 : 2e-5, cc = 0.41238; std::vector<Plaq> P((size_t)n * n * nz); auto at = [&](int x, int y, int z) -> Plaq & { return P[((size_t)(z % nz) * n + y % n) * n + x % n]; };
  std::vector<double> gv, ge; if (v) { gv.resize(P.size()); ge.resize(P.size()); for (size_t i = 0; i < P.size(); i++) { cd p = m.d[i] / R, d = (v->d[i] - H * m.d[i]) / (R * R); double e = 4 * g.eps() * (std::abs(v->d[i]) + fabs(H) * std::abs(m.d[i])) / (R * R), a = std::abs(d), b = std::abs(p), q = (1 + b * b / (8 * cc * cc)) / (ms2 * cc * cc), dot = 2 * (std::conj(p) * d).real(), w = 1 / (16 * ms2 * pow(cc, 4)); gv[i] = a * a * q + dot * dot * w; ge[i] = (2 * a * e + e * e) * q + (2 * fabs(dot) + 2 * b * e) * 2 * b * e * w + 8 * g.eps() * (a * a * q + 4 * b * b * a * a * w); } }
  for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) at(x, y, z) = plaq(m, x, y, z, tol);
  const int C[3][3][3] = {{{1, 0, 0}, {0, 1, 0}, {1, 1, 0}}, {{0, 1, 0}, {0, 0, 1}, {0, 1, 1}}, {{0, 0, 1}, {1, 0, 0}, {1, 0, 1}}};
  for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) { Plaq &a = at(x, y, z), &b = at(x + 1, y, z), &c = at(x, y + 1, z), &d = at(x, y, z + 1); std::vector<P3> p; bool mine = z >= z0 && z < z0 + lz;
    for (int k = 0; k < 3; k++) { if (a.w[k] == 9) r.amb++; else if (a.w[k]) { r.n++; if (mine) { r.local++; r.pos.insert({2 * x + (k != 1), 2 * y + (k != 2), 2 * z + (k != 0)}); }
        if (v) { double s = 0, e = 0; auto add = [&](int X, int Y, int Z) { size_t i = ((size_t)((z + Z) % nz) * n + (y + Y) % n) * n + (x + X) % n; s += gv[i] / 4; e += ge[i] / 4; }; add(0, 0, 0); for (auto &o : C[k]) add(o[0], o[1], o[2]); r.gam += sqrt(1 + s); r.gam2 += 1 + s; r.vel += sqrt(s); r.vel2 += s / sqrt(1 + s); r.tol += e + std::min(sqrt(e), e / sqrt(s + 1e-300)); } } }
    if (a.w[0]) p.push_back({x + a.u[0], y + a.v[0], (double)z}); if (a.w[1]) p.push_back({(double)x, y + a.u[1], z + a.v[1]}); if (a.w[2]) p.push_back({x + a.v[2], (double)y, z + a.u[2]}); if (b.w[1]) p.push_back({x + 1., y + b.u[1], z + b.v[1]}); if (c.w[2]) p.push_back({x + c.v[2], y + 1., z + c.u[2]}); if (d.w[0]) p.push_back({x + d.u[0], y + d.v[0], z + 1.});
    if (p.size() % 2) r.odd++; if (p.size() == 6) r.many++; r.len += cellLength(p); }
  return r; }
}
LAW(C15, network, 500, 20000, NP1 | NP2 | NP3 | NP4) {
  Cfg g; geom(c, g, c.flip()); Bg B = bg(g, g.zi); double R = B.R; Net w = drawNet(c, R); Content kv = drawContent(c, c.logreal(0.1, 5) * R * R, 0); bool fold = c.flip(), two = c.flip(); int what = c.range(1, 3); c.say("%s kind=%d folded=%d positions=%d measure=%d", g.str().c_str(), w.kind, fold, two, what);
  Grid m = fieldOf(w, g, R), v = fillGrid(kv, g.n, g.nz, true, g.prec); Fld f(g); Scalar *s = f.s; if (fold) f.fold(); f.poisonGhosts(); scatterM(f, m); scatterV(f, v); Meas r = measure(m, what & 2 ? &v : nullptr, g, R, B.Rp, s->SaxionMassSq(), f.z0(), f.lz());
  if (r.amb) { c.discarded = true; } StringData d, e; { Quiet q; d = two ? strings2(s) : strings(s); e = stringlength(s, d, (StringMeasureType)what); }
  if (r.amb) return; c.check((long)e.strDen == r.n && (long)e.strDen_local == r.local, "number", "%ld plaquettes (%ld here), the field has %ld (%ld)", (long)e.strDen, (long)e.strDen_local, r.n, r.local);
  if (two && (size_t)r.local * 6 <= s->Size() * s->DataSize()) { const unsigned short *p = (const unsigned short *)s->m2Cpu(); std::multiset<std::array<int, 3>> a; for (size_t i = 0; i < d.strDen_local; i++) a.insert({p[3 * i], p[3 * i + 1], p[3 * i + 2]}); c.check(a == r.pos, "positions", "the %zu stored positions are not the %zu centres of the pierced plaquettes", a.size(), r.pos.size()); c.label("positions"); }
  if (what & 1) c.near(e.strLen, r.len, 1e-9 * (r.len + 1), "length", "%.12g"); else c.check(e.strLen == 0, "length", "length %g not asked for", e.strLen);
  if ((what & 2) && r.n) { double t = r.tol + 1e-12 * r.gam2; c.near(e.strDeng, r.gam, t, "gamma", "%.12g"); c.near(e.strVel, r.vel / r.gam, 2 * t / r.gam * (1 + r.vel / r.gam), "velocity", "%.12g"); c.near(e.strVel2, r.vel2 / r.gam, 2 * t / r.gam * (1 + r.vel2 / r.gam), "velocity2", "%.12g"); c.near(e.strGam, r.gam2 / r.gam, 2 * t / r.gam * (1 + r.gam2 / r.gam), "gamma2", "%.12g"); }
  Grid gm = gatherM(f), gv = gatherV(f); for (size_t i = 0; i < m.d.size(); i++) if (gm.d[i] != m.d[i] || gv.d[i] != v.d[i]) { c.fail("field", "the measurement changed the field at site %zu", i); break; }
  c.nontrivial = r.n > 0 && r.n < 3L * g.n * g.n * g.nz; const char *L[] = {"noise", "waves", "straight lines", "loop"}; c.label(L[w.kind]); if (r.many) c.label("three strings in a cell"); }
// fields independent of one direction: every string is straight and as long as the box
LAW(C15, straight, 200, 8000, NP1 | NP2 | NP3 | NP4) {
  Cfg g; geom(c, g, c.flip()); Bg B = bg(g, g.zi); double R = B.R; int ax = c.range(0, 2), n = g.n; uint64_t sd = c.seed(); bool fold = c.flip(); c.say("%s axis=%d folded=%d", g.str().c_str(), ax, fold); Grid m(n, g.nz); for (int z = 0; z < g.nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) { uint64_t h = mix(sd ^ mix((ax == 0 ? 0 : x) * 65536 + (ax == 1 ? 0 : y) * 256 + (ax == 2 ? 0 : z))); m.at(x, y, z) = rndp(R * std::polar(1 + 0.5 * hreal(h), M_PI * hreal(h + 1)), g.prec); }
  Fld f(g); if (fold) f.fold(); f.poisonGhosts(); scatterM(f, m); double tol = g.dp() ? 1e-9 : 2e-5; long k = 0, amb = 0; int U = ax == 0 ? 1 : 0; (void)U;
  if (ax == 2) { for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) { int q = winding(m.at(x, y, 0), m.at(x + 1, y, 0), m.at(x + 1, y + 1, 0), m.at(x, y + 1, 0), tol); amb += q == 9; k += q != 0; } } else if (ax == 0) { for (int z = 0; z < g.nz; z++) for (int y = 0; y < n; y++) { int q = winding(m.at(0, y, z), m.at(0, y + 1, z), m.at(0, y + 1, z + 1), m.at(0, y, z + 1), tol); amb += q == 9; k += q != 0; } } else for (int z = 0; z < g.nz; z++) for (int x = 0; x < n; x++) { int q = winding(m.at(x, 0, z), m.at(x, 0, z + 1), m.at(x + 1, 0, z + 1), m.at(x + 1, 0, z), tol); amb += q == 9; k += q != 0; }
  StringData d; { Quiet q; d = strings(f.s); d = stringlength(f.s, d, STRMEAS_LENGTH); } if (amb) { c.discarded = true; return; } double len = k * (double)(ax == 2 ? g.nz : n); c.near(d.strLen, len, 1e-9 * (len + 1), "length", "%.12g"); c.nontrivial = k > 0; c.label(ax == 0 ? "x" : ax == 1 ? "y" : "z"); }
LAW(C15, energy, 350, 12000, NP1 | NP2 | NP3 | NP4) {
  Cfg g; geom(c, g, c.flip()); if (c.flip()) { g.indi3 = c.logreal(0.05, 0.5); g.nqcd = c.pick<double>({0, 3}); } else g.indi3 = 0; Bg B = bg(g, g.zi); double R = B.R; int n = g.n, nz = g.nz; Content km = drawContent(c, c.logreal(0.1, 1) * R, std::polar(R, c.real(-M_PI, M_PI))), kv = drawContent(c, c.logreal(0.1, 3) * R * R, 0); bool fold = c.flip(); uint64_t ms = c.seed(); int dens = c.range(0, 9); c.say("%s folded=%d mask=%d", g.str().c_str(), fold, dens);
  Fld f(g); Scalar *s = f.s; double sh = s->Saskia() * R; if (!(fabs(sh) < 100 * R)) { c.discarded = true; return; } if (fold) f.fold(); f.poisonGhosts(); Grid m = fillGrid(km, n, nz, true, g.prec), v = fillGrid(kv, n, nz, true, g.prec); for (auto &x : m.d) { x = rndp(x + sh, g.prec); if (std::abs(x - sh) < 1e-2 * R) x = rndp(x + 0.1 * R, g.prec); } scatterM(f, m); scatterV(f, v);
  auto hid = [&](size_t i) { return (int)(mix(ms + i) % 10) < dens; }; char *sd = (char *)s->sData(); size_t z0 = (size_t)f.z0() * s->Surf(); for (size_t i = 0; i < s->Size(); i++) sd[i] = (hid(i + z0) ? STRING_MASK : 0) | (mix(ms + i + z0 + 7) & 0x7f); StringEnergyData e; { Quiet q; e = stringenergy(s); }
  double dx = g.L / n, lam = s->LambdaP(), N = (double)n * n * nz, tot = 0, ra = 0, rs = 0, va = 0, vs = 0, et = 0, ea = 0, es = 0, eva = 0, evs = 0; size_t no = 0, i = 0; const int E[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; auto sq = [](double x) { return x * x; };
  for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++, i++) { cd p = m.d[i], q = p - sh, d = v.d[i] - B.Rp * p; double a = std::abs(q), dn = 1 / (R * R * R * R), ed = 4 * g.eps() * (std::abs(v.d[i]) + fabs(B.Rp) * std::abs(p)), big = (std::abs(p) + fabs(sh)), eq = 4 * g.eps() * big; double kin = 0.5 * std::norm(d) * dn, gr = 0, sg = 0, eg = 0, esg = 0, pot = 0.25 * lam * sq(std::norm(p) / R / R - 1), epot = lam * (fabs(std::norm(p) / R / R - 1) * 8 * g.eps() * (std::norm(p) / R / R + 1) + sq(8 * g.eps() * (std::norm(p) / R / R + 1)));
    for (auto &o : E) { cd p2 = m.at(x + o[0], y + o[1], z + o[2]); double D = std::abs(p2 - p), S = std::abs(p2 - sh) - a, e1 = 4 * g.eps() * (std::abs(p) + std::abs(p2) + 2 * fabs(sh)); gr += sq(D); eg += 2 * D * e1 + e1 * e1; sg += sq(S); esg += 2 * fabs(S) * e1 + e1 * e1; } gr *= 0.5 * dn / dx / dx; sg *= 0.5 * dn / dx / dx; eg *= 0.5 * dn / dx / dx; esg *= 0.5 * dn / dx / dx;
    double th = (d / q).imag(), eth = (ed + std::abs(d) * eq / a) / a, ak = 0.5 * sq(th) / R / R, eak = (fabs(th) * eth + eth * eth) / R / R, rr = (d * a / q).real(), er = ed + 3 * std::abs(d) * eq / a, sk = 0.5 * sq(rr) * dn, esk = (fabs(rr) * er + er * er) * dn, V2 = sq(a / R), eV = 4 * eq * (a + eq) / R / R;
    tot += kin + gr + pot; et += (std::abs(d) * ed + ed * ed) * dn + eg + epot; va += V2 * 2 * ak; eva += V2 * 2 * eak + eV * 2 * (ak + eak); vs += V2 * (sk + sg + pot); evs += V2 * (esk + esg + epot) + eV * (sk + sg + pot + esk + esg + epot); if (!hid(i)) { ra += 2 * ak; rs += sk + sg + pot; ea += 2 * eak; es += esk + esg + epot; no++; } }
  c.check(e.nout == no, "sites", "%zu free sites, the mask leaves %zu", e.nout, no); double r = 1e-12; auto N_ = [&](const char *nm, double got, double w, double t) { c.near(got, w, t, nm, "%.10g"); };
  N_("rho_a", e.rho_a, ra / no, ea / no + r * ra / no); N_("rho_s", e.rho_s, rs / no, es / no + r * rs / no); N_("rho_a_vil", e.rho_a_Vil, va / N, eva / N + r * va / N); N_("rho_s_vil", e.rho_s_Vil, vs / N, evs / N + r * vs / N);
  N_("rho_str", e.rho_str, tot / N - ra / no - rs / no, et / N + ea / no + es / no + r * (tot / N + ra / no + rs / no)); N_("rho_str_vil", e.rho_str_Vil, tot / N - va / N - vs / N, (et + eva + evs + r * (tot + va + vs)) / N);
  Grid gm = gatherM(f); for (size_t j = 0; j < m.d.size(); j++) if (gm.d[j] != m.d[j]) { c.fail("field", "the measurement changed the field at site %zu", j); break; } c.nontrivial = km.kind && kv.kind && dens > 0; if (n != nz) c.label("not cubic"); }
