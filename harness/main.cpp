// Driver: runs the laws of one property, shrinks failures, writes a JSON report (rank 0).
#include "pbt.h"
#include <mpi.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <fenv.h>
#include "jax.h"

namespace pbt {
std::vector<Law> &laws() { static std::vector<Law> l; return l; }
static int R = 0, N = 1;
int nranks() { return N; } int myrank() { return R; }
}
using namespace pbt;

static std::string jesc(const std::string &s) {
  std::string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; } return o;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); double d = t.tv_sec + 1e-9 * t.tv_nsec; if (pbt::N > 1) MPI_Bcast(&d, 1, MPI_DOUBLE, 0, MPI_COMM_WORLD); return d; }
static int stateFd = -1;
static void setState(const std::string &s) {
  if (stateFd < 0) return; std::string t = s; if (t.size() < 64) t.resize(64, ' ');
  ssize_t r = pwrite(stateFd, (t + "\n").c_str(), t.size() + 1, 0); r = ftruncate(stateFd, t.size() + 1); (void)r;
}
// union of failures over ranks
static void merge(Case &c) {
  if (pbt::N == 1) return;
  int nf = c.fails.size(), tot = 0; MPI_Allreduce(&nf, &tot, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  int nt = c.nontrivial, ntm = 0; MPI_Allreduce(&nt, &ntm, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); c.nontrivial = ntm;
  if (!tot) return;
  std::string s; for (auto &f : c.fails) { s += f.sig; s += '\1'; s += "[rank " + std::to_string(pbt::R) + "] " + f.msg; s += '\2'; }
  int len = s.size(); std::vector<int> ls(pbt::N), ds(pbt::N); MPI_Allgather(&len, 1, MPI_INT, ls.data(), 1, MPI_INT, MPI_COMM_WORLD);
  int t = 0; for (int i = 0; i < pbt::N; i++) { ds[i] = t; t += ls[i]; }
  std::vector<char> buf(t + 1); MPI_Allgatherv((void *)s.data(), len, MPI_CHAR, buf.data(), ls.data(), ds.data(), MPI_CHAR, MPI_COMM_WORLD);
  std::string all(buf.data(), t); c.fails.clear(); size_t p = 0; std::set<std::string> seen;
  while (p < all.size()) { size_t a = all.find('\1', p), b = all.find('\2', a); Failure f{all.substr(p, a - p), all.substr(a + 1, b - a - 1)}; p = b + 1; if (seen.insert(f.sig).second) c.fails.push_back(f); }
}
static bool g_thorough = false;
static void runCase(const Law &l, Case &c) {
  c.thorough = g_thorough;
  jaxReset();
  try { l.fn(c); }
  catch (const std::exception &e) { c.fail("exception", "exception: %s", e.what()); }
  merge(c);
}
static bool hasSig(const Case &c, const std::string &s) { for (auto &f : c.fails) if (f.sig == s) return true; return false; }
static std::string join(const std::vector<uint64_t> &v) { std::string s; for (auto x : v) { if (!s.empty()) s += " "; s += std::to_string(x); } return s; }

static std::vector<uint64_t> shrink(const Law &l, std::vector<uint64_t> best, const std::string &sig, int maxEval, double maxSec, int &evals) {
  double t0 = now();
  auto still = [&](std::vector<uint64_t> &v) {
    evals++; Case c; c.replaying = true; c.replay = v; setState("S " + l.name + " " + join(v)); runCase(l, c);
    if (!hasSig(c, sig)) return false; v.clear(); for (auto &x : c.log) v.push_back(x.v); return true; };
  bool prog = true;
  while (prog && evals < maxEval && now() - t0 < maxSec) {
    prog = false;
    for (size_t i = 0; i < best.size() && evals < maxEval && now() - t0 < maxSec; i++) {
      if (best[i] == 0) continue;
      auto t = best; t[i] = 0; if (still(t)) { best = t; prog = true; continue; }
      uint64_t lo = 0, hi = best[i];     // lo passes (assumed), hi fails
      for (int k = 0; k < 6 && hi - lo > 1 && evals < maxEval; k++) {
        uint64_t mid = lo + (hi - lo) / 2; t = best; t[i] = mid;
        if (still(t)) { best = t; prog = true; if (i >= best.size()) break; hi = best[i]; if (hi <= lo) break; } else lo = mid; }
    }
  }
  return best;
}

void preMain() __attribute__((weak));    // called while the library's globals have their initial values
void postInit() __attribute__((weak));   // called once MPI runs

int main(int argc, char **argv) {
  if (preMain) preMain();
  std::string prop, lawSel, out, known, replay, state; uint64_t seed = 1; double scale = 1, maxSec = 1e9; int np = 1, shard = 0, shards = 1; long only = -1; bool shr = true;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--prop") prop = nx(); else if (a == "--law") lawSel = nx(); else if (a == "--out") out = nx(); else if (a == "--known") known = nx();
    else if (a == "--seed") seed = std::stoull(nx()); else if (a == "--scale") scale = std::stod(nx()); else if (a == "--time") maxSec = std::stod(nx());
    else if (a == "--np") np = std::stoi(nx()); else if (a == "--thorough") g_thorough = true; else if (a == "--replay") replay = nx();
    else if (a == "--index") only = std::stol(nx()); else if (a == "--state") state = nx(); else if (a == "--noshrink") shr = false;
    else if (a == "--shard") { std::string s = nx(); shard = std::stoi(s); shards = std::stoi(s.substr(s.find('/') + 1)); }
    else { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; } }
  if (jaxInit(argc, argv, np)) return 2;
  if (postInit) postInit();
  MPI_Comm_size(MPI_COMM_WORLD, &pbt::N); MPI_Comm_rank(MPI_COMM_WORLD, &pbt::R);
  if (pbt::R == 0 && !state.empty()) stateFd = open(state.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  std::set<std::string> kn;
  if (!known.empty()) { FILE *f = fopen(known.c_str(), "r"); char b[1024]; while (f && fgets(b, sizeof b, f)) { std::string s(b); while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); if (!s.empty()) kn.insert(s); } if (f) fclose(f); }
  FILE *jo = nullptr; if (pbt::R == 0 && !out.empty()) jo = fopen(out.c_str(), "w");

  if (!replay.empty()) {                       // replay one recorded case
    std::string law; std::vector<uint64_t> ch; uint64_t rs = 1; long ri = -1; bool th = false;
    FILE *f = fopen(replay.c_str(), "r"); if (!f) { fprintf(stderr, "cannot open %s\n", replay.c_str()); return 2; }
    static char b[1 << 20]; while (fgets(b, sizeof b, f)) { std::string s(b); while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back();
      size_t p = s.find(' '); std::string k = s.substr(0, p), v = p == std::string::npos ? "" : s.substr(p + 1);
      if (k == "law") law = v; else if (k == "choices") { const char *q = v.c_str(); char *e; while (*q) { uint64_t x = strtoull(q, &e, 10); if (e == q) break; ch.push_back(x); q = e; } }
      else if (k == "seed") rs = std::stoull(v); else if (k == "index") ri = std::stol(v); else if (k == "tier") th = v == "thorough"; }
    fclose(f); g_thorough = th; bool found = false;
    for (auto &l : laws()) if (l.name == law) { found = true;
      Case c; if (ri >= 0) c.rng = mix(rs * 1000003ULL + hstr(l.name) + mix(ri)); else { c.replaying = true; c.replay = ch; }
      setState("R " + l.name); runCase(l, c);
      if (pbt::R == 0) { fprintf(stderr, "replay law %s: %s\n", law.c_str(), c.desc.c_str()); for (auto &x : c.fails) fprintf(stderr, "  FAIL %s: %s\n", x.sig.c_str(), x.msg.c_str()); if (c.fails.empty()) fprintf(stderr, "  holds\n"); }
      if (jo) { fprintf(jo, "{\"fails\":["); for (size_t i = 0; i < c.fails.size(); i++) fprintf(jo, "%s{\"sig\":\"%s\",\"msg\":\"%s\"}", i ? "," : "", jesc(c.fails[i].sig).c_str(), jesc(c.fails[i].msg).c_str()); fprintf(jo, "],\"desc\":\"%s\",\"done\":true}\n", jesc(c.desc).c_str()); fclose(jo); } }
    if (!found) { fprintf(stderr, "unknown law %s\n", law.c_str()); }
    setState("D"); fflush(stdout); fflush(stderr); MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize(); _exit(found ? 0 : 2);
  }

  double tStart = now(); bool first = true; if (jo) fprintf(jo, "{\"np\":%d,\"laws\":[", np);
  for (auto &l : laws()) {
    if ((!prop.empty() && l.prop != prop) || (!lawSel.empty() && l.name != lawSel) || !(l.npmask & (1u << np))) continue;
    long n = (long)std::ceil((g_thorough ? l.thorough : l.quick) * scale); long evals = 0, disc = 0; std::set<uint64_t> distinct; std::map<std::string, long> labels; std::vector<std::string> samples, bad; std::map<std::string, long> knownHits; std::string knownSample;
    double t0 = now(); bool cut = false;
    for (long i = (only >= 0 ? only : 0); i < (only >= 0 ? only + 1 : n); i++) {
      if (only < 0 && (i % shards) != shard) continue;
      if (now() - tStart > maxSec) { cut = true; break; }
      Case c; c.rng = mix(seed * 1000003ULL + hstr(l.name) + mix(i)); setState("I " + l.name + " " + std::to_string(i));
      runCase(l, c); evals++;
      if (getenv("PBT_V") && pbt::R == 0) { fprintf(stderr, "%s[%ld] %s%s\n", l.name.c_str(), i, c.desc.c_str(), c.fails.empty() ? "" : "  <-- FAIL"); for (auto &f : c.fails) fprintf(stderr, "      %s: %s\n", f.sig.c_str(), f.msg.c_str()); }
      if (c.discarded) { disc++; continue; }
      for (auto &kv : c.labels) labels[kv.first]++;
      if (c.nontrivial) { uint64_t h = 7; for (auto &x : c.log) h = mix(h ^ x.v); distinct.insert(h); if (samples.size() < 3) samples.push_back(c.desc); }
      std::string us, um;
      for (auto &f : c.fails) { if (kn.count(l.name + " " + f.sig)) { knownHits[f.sig]++; } else if (us.empty()) { us = f.sig; um = f.msg; } }
      if (!us.empty()) {
        std::vector<uint64_t> ch; for (auto &x : c.log) ch.push_back(x.v); int se = 0;
        auto best = shr ? shrink(l, ch, us, 400, 20, se) : ch;
        Case f; f.replaying = true; f.replay = best; runCase(l, f); std::string m = um, d = f.desc; for (auto &x : f.fails) if (x.sig == us) m = x.msg;
        bad.push_back("{\"sig\":\"" + jesc(us) + "\",\"msg\":\"" + jesc(m) + "\",\"desc\":\"" + jesc(d) + "\",\"index\":" + std::to_string(i) + ",\"choices\":\"" + join(best) + "\",\"orig\":\"" + join(ch) + "\"}");
        if (pbt::R == 0) fprintf(stderr, "FAIL %s/%s: %s | %s\n", l.name.c_str(), us.c_str(), m.c_str(), d.c_str());
        break;
      }
    }
    if (jo) {
      fprintf(jo, "%s\n{\"law\":\"%s\",\"evaluations\":%ld,\"discarded\":%ld,\"distinct_nontrivial\":%zu,\"cut\":%s,\"wall_s\":%.2f,\"labels\":{", first ? "" : ",", l.name.c_str(), evals, disc, distinct.size(), cut ? "true" : "false", now() - t0);
      first = false; bool f1 = true; for (auto &kv : labels) { fprintf(jo, "%s\"%s\":%ld", f1 ? "" : ",", jesc(kv.first).c_str(), kv.second); f1 = false; }
      fprintf(jo, "},\"known\":{"); f1 = true; for (auto &kv : knownHits) { fprintf(jo, "%s\"%s\":%ld", f1 ? "" : ",", jesc(kv.first).c_str(), kv.second); f1 = false; }
      fprintf(jo, "},\"samples\":["); for (size_t i = 0; i < samples.size(); i++) fprintf(jo, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
      fprintf(jo, "],\"failures\":["); for (size_t i = 0; i < bad.size(); i++) fprintf(jo, "%s%s", i ? "," : "", bad[i].c_str()); fprintf(jo, "]}"); fflush(jo);
    } else now();
  }
  if (jo) { fprintf(jo, "],\"done\":true}\n"); fclose(jo); }
  setState("D"); fflush(stdout); fflush(stderr); MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize(); _exit(0);
}
