// C18: histograms against exact counts
#include "jax.h"
#include "utils/binner.h"
#include "utils/profiler.h"
#include <mpi.h>
using namespace pbt;
// the data of all ranks: dist selects the shape, inf marks some entries as infinite
struct Data { int dist; uint64_t seed; double lo, hi; double pinf; int infFirst; size_t per, pad, len;
  bool padding(size_t i) const { return pad > len && i % pad >= len; }
  double operator()(size_t rank, size_t i) const { uint64_t h = mix(seed + rank * 1000003 + i); double u = (h >> 11) * (1. / 9007199254740992.0); if (padding(i)) return h % 3 ? 1e6 * (u - 0.5) : NAN;
    if (pinf > 0 && (i == 0 ? infFirst : (h % 1000) < pinf * 1000)) return (mix(h) & 1) ? INFINITY : -INFINITY;
    switch (dist) { case 0: return lo + (hi - lo) * u; case 1: return lo + (hi - lo) * (double)(h % 5) / 4; case 2: return h % 50 == 0 ? lo + (hi - lo) * u : (h % 2 ? lo : hi); case 3: return lo + (hi - lo) * u * u * u * u; default: return lo + (hi - lo) * (0.5 * u + (i % 7 == 3 ? 0.5 : 0)); } } };
template<size_t N, class T> static void oneBin(Case &c, const Data &d, const std::vector<T> &loc, const std::function<double(T)> &flt, bool twice) {
  int np = commSize(); std::vector<T> data = loc; Binner<N, T> b(data.data(), data.size(), flt); if (d.pad > d.len) b.setpad(d.pad, d.len);
  { Quiet q; if (twice) b.find(); b.run(); } 
  std::vector<double> x; double lo = INFINITY, hi = -INFINITY; long tot = 0, fin = 0; std::vector<double> mine; for (size_t i = 0; i < data.size(); i++) { if (d.padding(i)) continue; mine.push_back(flt(loc[i])); }
  std::vector<double> allv(mine.size() * np); MPI_Allgather(mine.data(), mine.size(), MPI_DOUBLE, allv.data(), mine.size(), MPI_DOUBLE, MPI_COMM_WORLD);
  for (double v : allv) { tot++; if (std::isinf(v)) continue; fin++; lo = std::min(lo, v); hi = std::max(hi, v); }
  for (size_t i = 0; i < data.size(); i++) if (memcmp(&data[i], &loc[i], sizeof(T))) { c.fail("data", "the histogram changed datum %zu", i); return; }
  if (!fin || hi - lo < 1e-9 * 1.01) { c.label("degenerate"); c.discarded = true; return; }
  if (!(b.min() == lo && b.max() == hi)) { c.fail("range", "range %.17g..%.17g, data %.17g..%.17g", b.min(), b.max(), lo, hi); return; }
  double step = (hi - lo) / (N - 1), base = lo - 0.5 * step, sum = 0; std::vector<long> sure(N, 0), maybe(N, 0); double scale = std::max(fabs(lo), fabs(hi)), fuzz = 8 * 2.3e-16 * (scale / step + N);
  for (double v : allv) { if (std::isinf(v)) continue; double p = (v - base) / step; long k = floor(p), k1 = floor(p - fuzz), k2 = floor(p + fuzz); if (k1 == k2) { if (k >= 0 && k < (long)N) sure[k]++; } else { if (k1 >= 0 && k1 < (long)N) maybe[k1]++; if (k2 >= 0 && k2 < (long)N) maybe[k2]++; } }
  double unit = 1. / ((double)tot * step);
  for (size_t k = 0; k < N; k++) { double cnt = b.data()[k] / unit; sum += b.data()[k] * step; if (!(cnt >= sure[k] - 1e-7 * (1 + sure[k]) && cnt <= sure[k] + maybe[k] + 1e-7 * (1 + sure[k]))) { c.fail("count", "bin %zu of %zu holds %.9g data, %ld lie in it (%ld on its edge)", k, (size_t)N, cnt, sure[k], maybe[k]); return; } if (b.data()[k] != b[k]) { c.fail("access", "element access of bin %zu", k); return; } }
  c.near(sum, (double)fin / tot, 1e-9, "integral", "integral (finite fraction of the data)");
  // look-up by value
  for (int t = 0; t < 4; t++) { size_t i = c.seed() % data.size(); if (d.padding(i)) continue; double v = flt(loc[i]); if (std::isinf(v)) continue; double p = (v - base) / step; if (floor(p - fuzz) != floor(p + fuzz)) continue; const auto &cb = b; c.check(cb(loc[i]) == b.data()[(size_t)p], "lookup", "value %.17g is looked up in another bin than %zu", v, (size_t)p); }
  int occ = 0; for (size_t k = 0; k < N; k++) occ += sure[k] > 0; c.nontrivial = occ > 1 && fin > 10; c.label("bins" + std::to_string(N)); if (fin < tot) c.label("infinities"); if (d.pad > d.len) c.label("padded");
}
template<class T> static std::function<double(T)> filt(int k) { switch (k) { case 0: return [](T x) { return (double)std::real(x); }; case 1: return [](T x) { return (double)std::abs(x); }; case 2: return [](T x) { return log10((double)std::real(x) * (double)std::real(x)); }; default: return [](T x) { return 3. - 2. * (double)std::real(x); }; } }
template<class T> static void hist(Case &c, bool cx) {
  Data d; d.dist = c.range(0, 4); d.seed = c.seed(); d.lo = c.pick<double>({0, -1, 1e-3, -100, 1}); d.hi = d.lo + c.logreal(1e-3, 1e4); d.pinf = c.chance(1, 3) ? 0.05 : 0; d.infFirst = c.flip(); d.len = c.range(1, 20); d.pad = c.chance(1, 3) ? d.len + c.range(1, 3) : 1; if (d.pad == 1) d.len = 1; size_t rows = c.pick<size_t>({2, 20, 200}); if (d.pad == 1) rows *= 10; d.per = rows * d.pad; int k = c.range(0, 3); int nb = c.range(0, 5); bool twice = c.flip();
  c.say("%s dist=%d [%g,%g] inf=%g first=%d pad=%zu/%zu size=%zu filter=%d bins#%d find-first=%d", cx ? "complex" : sizeof(T) == 4 ? "float" : "double", d.dist, d.lo, d.hi, d.pinf, d.infFirst, d.pad, d.len, d.per, k, nb, twice);
  std::vector<T> loc(d.per); for (size_t i = 0; i < d.per; i++) { double v = d(commRank(), i); loc[i] = T(v); } auto f = filt<T>(k);
  switch (nb) { case 0: oneBin<2, T>(c, d, loc, f, twice); break; case 1: oneBin<3, T>(c, d, loc, f, twice); break; case 2: oneBin<10, T>(c, d, loc, f, twice); break; case 3: oneBin<101, T>(c, d, loc, f, twice); break; case 4: oneBin<1000, T>(c, d, loc, f, twice); break; default: oneBin<3000, T>(c, d, loc, f, twice); }
}
LAW(C18, counts_float, 2500, 40000, NP1 | NP2 | NP3) { hist<float>(c, false); }
LAW(C18, counts_double, 2500, 40000, NP1 | NP2 | NP3) { hist<double>(c, false); }
LAW(C18, counts_complex, 1500, 24000, NP1 | NP2 | NP3) { if (c.flip()) hist<std::complex<float>>(c, true); else hist<std::complex<double>>(c, true); }
// the stand-alone search of extremes
LAW(C18, extremes, 2500, 40000, NP1 | NP2 | NP3) {
  size_t n = c.range(1, 3000); uint64_t sd = c.seed(); bool fl = c.flip(); int k = c.range(0, 1); int at = c.range(0, 3); c.say("size=%zu filter=%d extreme=%d", n, k, at); std::vector<double> d(n); double lo = INFINITY, hi = -INFINITY;
  for (size_t i = 0; i < n; i++) { d[i] = 10 * hreal(mix(sd + commRank() * 7919 + i)); if (at == 1 && i == 0) d[i] = commRank() ? -50 : 50; if (at == 2 && i == n - 1) d[i] = commRank() ? 50 : -50; if (fl) d[i] = (float)d[i]; }
  std::function<double(double)> f = k ? (std::function<double(double)>)[](double x) { return -x * x; } : [](double x) { return x; }; for (double x : d) { lo = std::min(lo, f(x)); hi = std::max(hi, f(x)); } double g[2] = {hi, -lo}, G[2]; MPI_Allreduce(g, G, 2, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
  Quiet q; double a = find<FIND_MAX, double>(d.data(), n, f), b = find<FIND_MIN, double>(d.data(), n, f); c.check(a == G[0], "max", "maximum %.17g, is %.17g", a, G[0]); c.check(b == -G[1], "min", "minimum %.17g, is %.17g", b, -G[1]); c.nontrivial = n > 3;
}
