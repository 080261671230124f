// windings and crossing points of the plaquettes of a lattice field, shared by C15 and C23
#pragma once
#include "ref.h"
#include "strings/strings.h"
#include <set>
namespace strf {
using namespace ref;
inline double wrapPi(double a) { while (a > M_PI) a -= 2 * M_PI; while (a <= -M_PI) a += 2 * M_PI; return a; }
// winding number of the corners a,b,c,d in order; 9 when a link is too close to antipodal to decide
inline int winding(cd A, cd B, cd C, cd D, double tol) { double p[5] = {std::arg(A), std::arg(B), std::arg(C), std::arg(D), std::arg(A)}, s = 0; for (int i = 0; i < 4; i++) { double d = wrapPi(p[i] - p[i + 1]); if (fabs(d) > M_PI - tol) return 9; s += d; } return (int)lround(s / (2 * M_PI)); }
// point of the unit square in which the zero lines of the real and the imaginary part meet; p at (0,0), pu at (1,0), pv at (0,1), puv at (1,1)
inline void cross(cd p, cd pu, cd pv, cd puv, double &u, double &v) {
  std::vector<std::array<double, 2>> nd[2]; for (int k = 0; k < 2; k++) { auto q = [&](cd z) { return k ? z.imag() : z.real(); }; double a = q(p), b = q(pu), c = q(puv), d = q(pv); if ((a > 0) != (b > 0)) nd[k].push_back({a / (a - b), 0}); if ((b > 0) != (c > 0)) nd[k].push_back({1, b / (b - c)}); if ((c > 0) != (d > 0)) nd[k].push_back({d / (d - c), 1}); if ((d > 0) != (a > 0)) nd[k].push_back({0, a / (a - d)}); }
  u = v = 0.5; if (nd[0].size() != 2 || nd[1].size() != 2) return; auto &P = nd[0][0], &Q = nd[0][1], &S = nd[1][0], &T = nd[1][1]; double rx = Q[0] - P[0], ry = Q[1] - P[1], sx = T[0] - S[0], sy = T[1] - S[1], den = rx * sy - ry * sx, t = ((S[0] - P[0]) * sy - (S[1] - P[1]) * sx) / den; u = P[0] + t * rx; v = P[1] + t * ry; }
typedef std::array<double, 3> P3;
inline double dist(const P3 &a, const P3 &b) { return sqrt(pow(a[0] - b[0], 2) + pow(a[1] - b[1], 2) + pow(a[2] - b[2], 2)); }
// mean over all ways of joining the points in pairs of the summed distances
inline double joined(const std::vector<P3> &p, std::vector<int> left) { if (left.empty()) return 0; int a = left[0], k = 0; double s = 0; for (size_t i = 1; i < left.size(); i++) { std::vector<int> r; for (size_t j = 1; j < left.size(); j++) if (j != i) r.push_back(left[j]); s += dist(p[a], p[left[i]]) + joined(p, r); k++; } return s / k; }
inline double cellLength(const std::vector<P3> &p) { if (p.size() < 2 || p.size() % 2) return 0; std::vector<int> l; for (size_t i = 0; i < p.size(); i++) l.push_back(i); return joined(p, l); }
struct Plaq { int w[3]; double u[3], v[3]; };      // XY (u=x,v=y), YZ (u=y,v=z), ZX (u=z,v=x) of a site
inline Plaq plaq(const Grid &m, int x, int y, int z, double tol) { Plaq q; cd a = m.at(x, y, z), X = m.at(x + 1, y, z), Y = m.at(x, y + 1, z), Z = m.at(x, y, z + 1), XY = m.at(x + 1, y + 1, z), YZ = m.at(x, y + 1, z + 1), ZX = m.at(x + 1, y, z + 1); q.w[0] = winding(a, X, XY, Y, tol); q.w[1] = winding(a, Y, YZ, Z, tol); q.w[2] = winding(a, Z, ZX, X, tol); if (q.w[0]) cross(a, X, Y, XY, q.u[0], q.v[0]); if (q.w[1]) cross(a, Y, Z, YZ, q.u[1], q.v[1]); if (q.w[2]) cross(a, Z, X, ZX, q.u[2], q.v[2]); return q; }
struct Meas { long n = 0, amb = 0, odd = 0, many = 0, local = 0; double len = 0, gam = 0, gam2 = 0, vel = 0, vel2 = 0, tol = 0; std::multiset<std::array<int, 3>> pos; };
}
