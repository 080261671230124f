// Choice-sequence property-based testing for MPI programs.
// Every random decision of a case is one recorded choice drawn from splitmix64(seed, law, index);
// a failing choice list is shrunk in-process and becomes the replay file. All ranks draw the same
// choices; the verdict of a case is the union of the verdicts of the ranks.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <complex>
#include <algorithm>

namespace pbt {
typedef std::complex<double> cd;

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31);
}
inline uint64_t hstr(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL; return mix(h); }
// uniform in [-1,1) from a hash
inline double hreal(uint64_t h) { return (double)(mix(h) >> 11) * (2.0 / 9007199254740992.0) - 1.0; }

struct Choice { uint64_t v, bound; };

struct Failure { std::string sig, msg; };

struct Case {
  std::vector<uint64_t> replay; bool replaying = false; uint64_t rng = 0;
  std::vector<Choice> log;
  std::vector<Failure> fails;
  std::map<std::string, int> labels;
  bool nontrivial = false;
  bool discarded = false;
  std::string desc;
  bool thorough = false;

  uint64_t draw(uint64_t bound) {              // uniform in [0,bound)
    if (bound == 0) bound = 1;
    uint64_t v;
    if (replaying) { size_t p = log.size(); v = p < replay.size() ? replay[p] : 0; if (v >= bound) v = bound - 1; }
    else { rng += 0x9e3779b97f4a7c15ULL; v = mix(rng) % bound; }
    log.push_back({v, bound}); return v;
  }
  long range(long lo, long hi) { return lo + (long)draw((uint64_t)(hi - lo + 1)); }
  // 2^20-step grid in [lo,hi]; choice 0 is lo
  double real(double lo, double hi) { uint64_t v = draw((1 << 20) + 1); return lo + (hi - lo) * (double)v / (double)(1 << 20); }
  double logreal(double lo, double hi) { return lo * pow(hi / lo, real(0, 1)); }
  bool chance(int num, int den) { return draw(den) >= (uint64_t)(den - num); }   // choice 0 is false
  bool flip() { return chance(1, 2); }
  template <class T> T pick(std::initializer_list<T> l) { uint64_t i = draw(l.size()); return *(l.begin() + i); }
  template <class T> T pick(const std::vector<T> &l) { uint64_t i = draw(l.size()); return l[i]; }
  uint64_t seed() { return draw(1ULL << 32); }

  void label(const std::string &s) { labels[s]++; }
  void say(const char *f, ...) __attribute__((format(printf, 2, 3))) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); if (!desc.empty()) desc += " "; desc += b; }
  // record a violation; only the first message of each signature is kept
  void fail(const std::string &sig, const char *f, ...) __attribute__((format(printf, 3, 4))) {
    for (auto &x : fails) if (x.sig == sig) return;
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); fails.push_back({sig, b});
  }
  bool check(bool ok, const std::string &sig, const char *f, ...) __attribute__((format(printf, 4, 5))) {
    if (ok) return true;
    for (auto &x : fails) if (x.sig == sig) return false;
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); fails.push_back({sig, b}); return false;
  }
  // |got-want| <= tol*scale (NaN fails)
  bool near(double got, double want, double tol, const std::string &sig, const char *f, ...) __attribute__((format(printf, 6, 7))) {
    if (std::fabs(got - want) <= tol) return true;
    for (auto &x : fails) if (x.sig == sig) return false;
    char b[3000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    char d[4096]; snprintf(d, sizeof d, "%s: got %.17g want %.17g (tolerance %.3g)", b, got, want, tol); fails.push_back({sig, d}); return false;
  }
};

struct Law { std::string prop, name; int quick, thorough; unsigned npmask; std::function<void(Case &)> fn; };
std::vector<Law> &laws();
struct Reg { Reg(const char *p, const char *n, int q, int t, unsigned npmask, void (*f)(Case &)) { laws().push_back({p, n, q, t, npmask, f}); } };
#define NP1 2u
#define NP2 4u
#define NP3 8u
#define NP4 16u
// npmask: bit n = run on n ranks
#define LAW(P, N, Q, T, MASK) static void law_##P##_##N(pbt::Case &c); static pbt::Reg reg_##P##_##N(#P, #N, Q, T, MASK, law_##P##_##N); static void law_##P##_##N(pbt::Case &c)
int nranks(); int myrank();
}
using pbt::Case; using pbt::cd; using pbt::mix; using pbt::hreal;
