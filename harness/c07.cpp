// C07: vector-layout conversions (stateful model of Folder on m, v, m2)
#include "jax.h"

namespace {
struct Op { int k; int arg; };
}
LAW(C07, fold_history, 420, 9000, NP1 | NP2) {
  Cfg g; g.type = c.pick<FieldType>({FIELD_SAXION, FIELD_AXION, FIELD_PAXION}); g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE});
  int np = commSize();
  g.Ng = c.pick<int>({1, 2, 3, 4}); int unit = 32 / (g.prec * (g.type == FIELD_SAXION ? 2 : 1));
  g.n = unit * c.range(1, unit >= 8 ? 4 : 32 / unit); if (g.n < 4) g.n = 4;
  int lz = c.range(std::max(1, g.Ng), std::max(g.n, g.Ng)); if (lz > 12) lz = 12; if (g.n <= 16 && c.chance(1, 4)) lz = g.n * c.range(1, 2) + c.range(1, 7); g.nz = lz * np;
  c.say("%s", g.str().c_str());
  Fld f(g); Scalar *s = f.s; size_t fs = s->DataSize(), n1 = s->Length(), n2 = s->Surf(), n3 = s->Size(), sh = 32 / fs, h = n1 / sh;
  uint64_t sd = c.seed() + 1000003ULL * commRank();
  // arbitrary bit patterns, NaNs included: the conversion may only move bits
  std::vector<uint8_t> ref[3]; uint8_t *st[3] = {(uint8_t *)s->mStart(), (uint8_t *)s->vStart(), (uint8_t *)s->m2Start()};
  for (int b = 0; b < 3; b++) { ref[b].resize(n3 * fs); for (size_t i = 0; i < n3 * fs; i += 4) { uint32_t r = (uint32_t)mix(sd + 977 * b + i * 13); memcpy(&ref[b][i], &r, 4); } memcpy(st[b], ref[b].data(), n3 * fs); }
  bool fold = false, fold2 = false; int nops = c.range(1, 8); bool sawF = false, sawU = false, sawS = false;
  auto loc = [&](int b, size_t x, size_t y, size_t z, bool fo) { return st[b] + fs * (fo ? z * n2 + (y % h) * n1 * sh + x * sh + y / h : z * n2 + y * n1 + x); };
  auto verify = [&](const char *after) {
    static const char *nm[] = {"m", "v", "m2"};
    c.check(s->Folded() == fold, "flag", "Folded()=%d after %s", s->Folded(), after); c.check(s->M2Folded() == fold2, "flag2", "M2Folded()=%d after %s", s->M2Folded(), after);
    for (int b = 0; b < 3; b++) { bool fo = b == 2 ? fold2 : fold;
      for (size_t z = 0; z < (size_t)lz; z++) for (size_t y = 0; y < n1; y++) for (size_t x = 0; x < n1; x++)
        if (memcmp(loc(b, x, y, z, fo), &ref[b][fs * (z * n2 + y * n1 + x)], fs)) { c.fail(std::string("layout-") + nm[b], "%s site (%zu,%zu,%zu) wrong after %s (folded=%d)", nm[b], x, y, z, after, fo); return; } } };
  for (int i = 0; i < nops; i++) {
    int k = c.range(0, 6); Folder munge(s);
    switch (k) {
      case 0: munge(FOLD_ALL); c.say("FOLD"); fold = true; sawF = true; verify("FOLD_ALL"); break;
      case 1: munge(UNFOLD_ALL); c.say("UNFOLD"); if (fold) sawU = true; fold = false; verify("UNFOLD_ALL"); break;
      case 2: { int z = c.range(0, lz - 1); munge(UNFOLD_SLICE, z); c.say("SLICE(%d)", z); sawS |= fold; verify("UNFOLD_SLICE");
        c.check(!memcmp(s->mFrontGhost(), &ref[0][fs * n2 * z], fs * n2), "slice-m", "m slice z=%d wrong (folded=%d)", z, fold);
        c.check(!memcmp(s->mBackGhost(), &ref[1][fs * n2 * z], fs * n2), "slice-v", "v slice z=%d wrong (folded=%d)", z, fold); break; }
      case 3: { if ((size_t)lz > n1 * g.Ng) break; int x = c.range(0, n1 - 1); munge(UNFOLD_SLICEYZ, x); c.say("SLICEYZ(%d)", x); sawS |= fold; verify("UNFOLD_SLICEYZ");
        for (int z = 0; z < lz; z++) for (size_t y = 0; y < n1; y++) { size_t o = fs * ((size_t)z * n1 + y), r = fs * ((size_t)z * n2 + y * n1 + x);
          c.check(!memcmp((uint8_t *)s->mFrontGhost() + o, &ref[0][r], fs), "sliceyz-m", "m plane x=%d wrong at y=%zu z=%d (folded=%d)", x, y, z, fold);
          c.check(!memcmp((uint8_t *)s->mBackGhost() + o, &ref[1][r], fs), "sliceyz-v", "v plane x=%d wrong at y=%zu z=%d (folded=%d)", x, y, z, fold); } break; }
      case 4: munge(FOLD_M2); c.say("FOLD_M2"); fold2 = true; verify("FOLD_M2"); break;
      case 5: munge(UNFOLD_M2); c.say("UNFOLD_M2"); fold2 = false; verify("UNFOLD_M2"); break;
      case 6: { int z = c.range(0, lz - 1); munge(UNFOLD_SLICEM2, z); c.say("SLICEM2(%d)", z); verify("UNFOLD_SLICEM2");
        c.check(!memcmp(s->m2FrontGhost(), &ref[2][fs * n2 * z], fs * n2), "slice-m2", "m2 slice z=%d wrong (folded=%d)", z, fold2); break; }
    }
  }
  if (fold) { Folder munge(s); munge(UNFOLD_ALL); fold = false; verify("final UNFOLD_ALL"); }
  if (fold2) { Folder munge(s); munge(UNFOLD_M2); fold2 = false; verify("final UNFOLD_M2"); }
  c.nontrivial = sawF && n1 > sh; if (sawF) c.label("fold"); if (sawU) c.label("unfold-after-fold"); if (sawS) c.label("slice-of-folded"); c.label("type" + std::to_string(g.type)); c.label(g.dp() ? "double" : "single");
}
