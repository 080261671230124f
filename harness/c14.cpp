// C14: string and wall maps and densities against the winding of every plaquette
#include "ref.h"
#include "strings/strings.h"
#include "scalar/folder.h"
#include <mpi.h>
static double wrapPi(double a) { while (a > M_PI) a -= 2 * M_PI; while (a <= -M_PI) a += 2 * M_PI; return a; }
// winding number counted clockwise (the library's positive sense); 9 when a link is too close to antipodal to decide
static int winding(double a, double b, double c, double d, double tol) {
  double p[5] = {a, b, c, d, a}; double s = 0;
  for (int i = 0; i < 4; i++) { double D = wrapPi(p[i] - p[i + 1]); if (fabs(D) > M_PI - tol) return 9; s += D; }
  return (int)lround(s / (2 * M_PI));
}
// the link a-b meets the half line Re<0, Im=0 ; 9 undecided
static int wallLink(cd a, cd b, double tol) {
  if ((a.imag() > 0) == (b.imag() > 0)) return 0;
  double x = (a.real() * b.imag() - b.real() * a.imag()) / (b.imag() - a.imag()), s = std::max(std::abs(a), std::abs(b));
  if (std::abs(a.real() * b.imag() - b.real() * a.imag()) < tol * s * s * 0.5) return 9; return x < 0;
}
static void run(Case &c, bool ties) {
  int np = commSize(), rk = commRank();
  Cfg g; g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE}); int lanes = g.dp() ? 2 : 4; g.Ng = c.pick<int>({1, 2, 1, 3}); g.lowmem = c.chance(1, 4);
  g.n = lanes * c.range(std::max(1, 4 / lanes), 28 / lanes); while (g.n % np) g.n += lanes; g.nz = np * c.range(g.Ng, g.Ng + 7); if (g.n <= 12 && c.chance(1, 8)) g.nz = np * (g.n + c.range(1, 9)); g.zi = c.logreal(0.3, 5);
  double R = pow(g.zi, g.frw), tol = g.dp() ? 1e-9 : 2e-5; int kind = c.range(0, 4); uint64_t sd = c.seed(); bool fold = c.flip(); 
  // 0 noise, 1 smooth waves around zero, 2 straight vortex lines, 3 noise on a circle, 4 few random phases on a constant field
  Content kw{4, sd, R, 0}; int n = g.n; Grid m(n, g.nz); auto H = [&](uint64_t a) { return hreal(mix(sd * 977 + a)); };
  c.say("%s kind=%d ties=%d folded=%d seed=%lu", g.str().c_str(), kind, ties, fold, (unsigned long)sd);
  int ax = (int)(mix(sd) % 3);
  for (int z = 0; z < g.nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) { uint64_t h = mix(sd ^ mix(((uint64_t)z << 40) ^ ((uint64_t)y << 20) ^ x)); cd v;
    switch (kind) {
      case 0: v = R * cd(hreal(h), hreal(h + 1)); break;
      case 1: v = kw(x, y, z, n, g.nz); break;
      case 2: { double u = ax == 0 ? y : x, w = ax == 2 ? y : z, U = n, W = ax == 2 ? n : g.nz; double a = 0; for (int k = 0; k < 4; k++) { double u0 = (H(10 + k) + 1) / 2 * U, w0 = (H(20 + k) + 1) / 2 * W; a += (k % 2 ? 1 : -1) * atan2(sin(2 * M_PI * (w - w0) / W), sin(2 * M_PI * (u - u0) / U)); } v = std::polar(R, a + H(5) * M_PI); break; }
      case 3: v = std::polar(R * (1.1 + hreal(h)), M_PI * hreal(h + 3)); break;
      default: v = std::polar(R, 0.3 + (h % 11 == 0 ? M_PI * hreal(h + 3) : 0)); }
    if (ties && h % 3 == 0) v = cd(v.real(), (h >> 8) % 2 ? 0. : -0.);
    if (std::abs(v) < 1e-3 * R) v += 0.01 * R;
    m.at(x, y, z) = rndp(v, g.prec); }
  Fld f(g); Scalar *s = f.s; if (fold) f.fold(); f.poisonGhosts(); scatterM(f, m); char *sD = (char *)s->sData(); size_t V = s->Size(), S = s->Surf(); int lz = f.lz();
  for (size_t i = 0; i < V; i++) sD[i] = (char)mix(sd + i);          // stale contents of an earlier map
  bool two = c.flip() && !(g.lowmem); StringData d; { Quiet q; d = two ? strings2(s) : strings(s); }
  std::vector<double> ar(m.d.size()); for (size_t i = 0; i < ar.size(); i++) ar[i] = std::arg(m.d[i]);
  auto A = [&](int x, int y, int z) { return ar[((size_t)(z % g.nz) * n + y % n) * n + x % n]; };
  long nS = 0, nC = 0, nW = 0, amb = 0, ambW = 0, nSl = 0, nWl = 0; std::vector<uint8_t> want(V, 0), skip(V, 0);
  for (int z = 0; z < g.nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) {
    cd e = m.at(x, y, z), px = m.at(x + 1, y, z), py = m.at(x, y + 1, z), pz = m.at(x, y, z + 1); bool mine = z / lz == rk; size_t o = (size_t)(z - f.z0()) * S + (size_t)y * n + x;
    double ae = A(x, y, z), ax_ = A(x + 1, y, z), ay = A(x, y + 1, z), az = A(x, y, z + 1); int w[3] = {winding(ae, ax_, A(x + 1, y + 1, z), ay, tol), winding(ae, ay, A(x, y + 1, z + 1), az, tol), winding(ae, az, A(x + 1, y, z + 1), ax_, tol)}; int flag = 0, sk = 0;
    for (int k = 0; k < 3; k++) { if (w[k] == 9) { amb++; sk |= 9 << k; } else if (w[k]) { nS++; nC += w[k]; if (mine) nSl++; flag |= (w[k] > 0 ? 1 : 8) << k; } }
    int wl[3] = {wallLink(e, px, tol), wallLink(e, py, tol), wallLink(e, pz, tol)}; bool any = wl[0] == 1 || wl[1] == 1 || wl[2] == 1, und = wl[0] == 9 || wl[1] == 9 || wl[2] == 9;
    if (any) { nW++; if (mine) nWl++; flag |= 64; } else if (und) { ambW++; sk |= 64; }
    if (mine) { want[o] = flag; skip[o] = sk; } }
  int bad = 0; for (int z = 0; z < lz && bad < 1; z++) for (int y = 0; y < n && bad < 1; y++) for (int x = 0; x < n; x++) { size_t o = (size_t)z * S + (size_t)y * n + x; int got = (unsigned char)sD[o]; if (g.lowmem || !two || true) if ((got & ~skip[o]) != (want[o] & ~skip[o])) {
      int df = (got ^ want[o]) & ~skip[o]; c.fail(df & 63 ? "string-map" : df & 64 ? "wall-map" : "other-bits", "map at (%d,%d,%d) is 0x%02x, expected 0x%02x", x, y, z + f.z0(), got, want[o]); bad++; break; } }
  if (!amb) { c.check((long)d.strDen == nS, "strDen", "string plaquettes %ld, expected %ld", (long)d.strDen, nS); c.check((long)d.strChr == nC, "strChr", "net chirality %ld, expected %ld", (long)d.strChr, nC); c.check((long)d.strDen_local == nSl, "strDen-local", "local string plaquettes %ld, expected %ld", (long)d.strDen_local, nSl); }
  else { c.check(labs((long)d.strDen - nS) <= amb, "strDen", "string plaquettes %ld, expected %ld (+%ld undecided)", (long)d.strDen, nS, amb); c.label("undecided plaquette"); }
  if (!ambW) { c.check((long)d.wallDn == nW, "wallDn", "wall sites %ld, expected %ld", (long)d.wallDn, nW); c.check((long)d.wallDn_local == nWl, "wallDn-local", "local wall sites %ld, expected %ld", (long)d.wallDn_local, nWl); }
  c.check(s->sDStatus() & SD_MAP, "status", "string data status %d without SD_MAP", (int)s->sDStatus());
  for (int z = 0; z < lz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) if (f.m(x, y, z) != m.at(x, y, z + f.z0())) { c.fail("field", "the search changed the field at (%d,%d,%d)", x, y, z + f.z0()); z = lz; break; }
  if (two && !amb) {                           // positions of the plaquettes, in half lattice units
    std::multiset<std::vector<int>> a, b; const unsigned short *p = (const unsigned short *)s->m2Cpu();
    if ((size_t)d.strDen_local * 6 <= V * s->DataSize()) {
      for (size_t i = 0; i < d.strDen_local; i++) a.insert({p[3 * i], p[3 * i + 1], p[3 * i + 2]});
      for (int z = 0; z < lz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) { int fl = want[(size_t)z * S + (size_t)y * n + x], Z = 2 * (z + f.z0()); if (fl & 9) b.insert({2 * x + 1, 2 * y + 1, Z}); if (fl & 18) b.insert({2 * x, 2 * y + 1, Z + 1}); if (fl & 36) b.insert({2 * x + 1, 2 * y, Z + 1}); }
      c.check(a == b, "positions", "the stored string positions are not the pierced plaquettes (%zu stored, %zu expected)", a.size(), b.size()); c.check(s->m2Status() == M2_STRINGCOO, "status2", "m2 status %d after strings2", (int)s->m2Status()); c.label("positions"); } }
  c.nontrivial = nS > 0 && nW > 0 && nS < 3L * n * n * g.nz; c.label("kind" + std::to_string(kind));
}
LAW(C14, winding, 2600, 40000, NP1 | NP2 | NP3) { run(c, false); }
// many corners exactly on the real axis
LAW(C14, real_axis, 500, 6000, NP1 | NP2) { run(c, true); }
