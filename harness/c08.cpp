// C08: ghost exchange (stateful: random histories of exchanges over m, v, m2 and raw buffers)
#include "jax.h"
#include <mpi.h>

static const char *BN[] = {"m", "v", "m2"};
LAW(C08, exchange_history, 500, 8000, NP1 | NP2 | NP3 | NP4) {
  int np = commSize(), rk = commRank();
  Cfg g; g.type = c.pick<FieldType>({FIELD_SAXION, FIELD_AXION, FIELD_PAXION}); g.prec = c.pick<FieldPrecision>({FIELD_SINGLE, FIELD_DOUBLE});
  g.Ng = c.pick<int>({1, 2, 3, 4, 5}); g.n = c.pick<int>({8, 16, 12, 24}); if (g.n % np) g.n = 24;
  int lz = c.range(g.Ng, g.Ng + 5); if (g.n <= 16 && c.chance(1, 8)) lz = g.n + c.range(1, 9); g.nz = lz * np;
  c.say("%s np=%d", g.str().c_str(), np);
  Fld f(g); Scalar *s = f.s; size_t fs = s->DataSize(), n2 = s->Surf(), sb = n2 * fs; int Ng = g.Ng;
  int nb = 3; uint64_t sd = c.seed(); int ver = 0;
  // model: whole local buffer (front ghosts, interior, back ghosts) of each array, and the interiors of every rank
  auto fillVer = [&](int b, int v, int gz, size_t off) -> uint32_t { return (uint32_t)mix(sd ^ mix(((uint64_t)b << 56) ^ ((uint64_t)v << 48) ^ ((uint64_t)(gz + 1000) << 32) ^ off)); };
  bool hasGhost[3] = {true, g.type == FIELD_PAXION, true};
  uint8_t *base[3]; base[0] = (uint8_t *)s->mFrontGhost(); base[1] = (uint8_t *)(hasGhost[1] ? s->vFrontGhost() : s->vCpu()); base[2] = (uint8_t *)s->m2FrontGhost();
  int gl[3] = {Ng, hasGhost[1] ? Ng : 0, Ng};
  std::vector<std::vector<uint8_t>> mod(3); int curV[3] = {0, 0, 0};
  auto setSlice = [&](int b, int v, int zl) { // interior slice zl (local) of buffer b to version v, in memory and model
    std::vector<uint8_t> t(sb); for (size_t o = 0; o < sb; o += 4) { uint32_t r = fillVer(b, v, rk * lz + zl, o); memcpy(&t[o], &r, 4); }
    memcpy(base[b] + (gl[b] + zl) * sb, t.data(), sb); memcpy(&mod[b][(gl[b] + zl) * sb], t.data(), sb); };
  for (int b = 0; b < nb; b++) { mod[b].assign((lz + 2 * gl[b]) * sb, 0);
    for (size_t o = 0; o < mod[b].size(); o += 4) { uint32_t r = (uint32_t)mix(sd + 5000 + b * 131 + rk * 17 + o); memcpy(&mod[b][o], &r, 4); }   // ghosts start as garbage
    memcpy(base[b], mod[b].data(), mod[b].size()); for (int z = 0; z < lz; z++) setSlice(b, 0, z); }
  auto expect = [&](int b, int ng) {       // update the model: ng slices nearest the interior become the periodic neighbours
    int tot = lz * np; for (int k = 1; k <= ng; k++) for (int side = 0; side < 2; side++) {
      int gz = side ? (rk * lz + lz - 1 + k) % tot : ((rk * lz - k) % tot + tot) % tot; size_t pos = (size_t)(side ? gl[b] + lz - 1 + k : gl[b] - k) * sb;
      for (size_t o = 0; o < sb; o += 4) { uint32_t r = fillVer(b, curV[b], gz, o); memcpy(&mod[b][pos + o], &r, 4); } } };
  auto verify = [&](const char *what) { for (int b = 0; b < nb; b++) if (memcmp(base[b], mod[b].data(), mod[b].size())) {
      size_t o = 0; while (base[b][o] == mod[b][o]) o++; int sl = (int)(o / sb) - gl[b]; bool gh = sl < 0 || sl >= lz;
      c.fail(std::string(gh ? "ghost-" : "interior-") + BN[b], "%s: %s slice %d (local depth %d) differs at byte %zu after %s", gh ? "ghost" : "interior", BN[b], sl, lz, o % sb, what); 
      memcpy(base[b], mod[b].data(), mod[b].size()); } };
  int nops = c.range(1, 6);
  for (int i = 0; i < nops; i++) {
    int b = c.range(0, 2); if (b == 1 && !hasGhost[1]) b = 0; FieldIndex fi = b == 0 ? FIELD_M : b == 1 ? FIELD_V : FIELD_M2;
    char d[100]; int k = c.range(0, 5);
    auto edit = [&](bool interiorOnly) { // change the contents between exchanges
      ver++; if (!interiorOnly) { curV[b] = ver; for (int z = 0; z < lz; z++) setSlice(b, ver, z); }
      else for (int z = Ng; z < lz - Ng; z++) { for (size_t o = 0; o < sb; o += 4) { uint32_t r = fillVer(b, ver, 77, o); memcpy(base[b] + (gl[b] + z) * sb + o, &r, 4); memcpy(&mod[b][(gl[b] + z) * sb + o], &r, 4); } } };
    if (c.chance(1, 2)) edit(false);
    switch (k) {
      case 0: s->exchangeGhosts(fi); expect(b, Ng); snprintf(d, sizeof d, "exchangeGhosts(%s)", BN[b]); break;
      case 1: s->sendGhosts(fi, COMM_SDRV); if (c.flip()) edit(true); s->sendGhosts(fi, COMM_WAIT); expect(b, Ng); snprintf(d, sizeof d, "sendGhosts(%s,SDRV..WAIT)", BN[b]); break;
      case 2: if (c.flip()) { s->sendGhosts(fi, COMM_RECV); s->sendGhosts(fi, COMM_SEND); } else { s->sendGhosts(fi, COMM_SEND); s->sendGhosts(fi, COMM_RECV); } s->sendGhosts(fi, COMM_WAIT); expect(b, Ng); snprintf(d, sizeof d, "sendGhosts(%s,SEND,RECV,WAIT)", BN[b]); break;
      case 3: { int ng = c.range(1, Ng); s->sendGhosts2(fi, COMM_SDRV, ng); if (c.flip()) edit(true); s->sendGhosts2(fi, COMM_WAIT, ng); expect(b, ng); snprintf(d, sizeof d, "sendGhosts2(%s,ng=%d)", BN[b], ng); if (ng < Ng) c.label("partial"); break; }
      case 4: s->sendGhosts2(fi, COMM_SEND); s->sendGhosts2(fi, COMM_RECV); s->sendGhosts2(fi, COMM_WAIT); expect(b, Ng); snprintf(d, sizeof d, "sendGhosts2(%s,SEND,RECV,WAIT)", BN[b]); break;
      default: { // raw exchange of arbitrary buffers, optionally one direction only
        int dir = c.range(0, 2); size_t cnt = c.range(1, 3000); std::vector<uint8_t> SB(cnt), RF(cnt, 1), SF(cnt), RB(cnt, 2);
        auto val = [&](int r, int w, size_t o) { return (uint8_t)mix(sd + r * 1009 + w * 31 + o + ver * 7); };
        for (size_t o = 0; o < cnt; o++) { SB[o] = val(rk, 0, o); SF[o] = val(rk, 1, o); }
        void *nul = nullptr; void *a = SB.data(), *bf = RF.data(), *cf = SF.data(), *e = RB.data(); if (dir == 1) { cf = nul; e = nul; } if (dir == 2) { a = nul; bf = nul; }
        s->sendGeneral(COMM_SDRV, cnt, MPI_BYTE, a, bf, cf, e); s->sendGeneral(COMM_WAIT, cnt, MPI_BYTE, a, bf, cf, e);
        int fw = (rk + 1) % np, bk = (rk + np - 1) % np; snprintf(d, sizeof d, "sendGeneral(%zu bytes, dir %d)", cnt, dir);
        for (size_t o = 0; o < cnt; o++) { 
          c.check(RF[o] == (dir == 2 ? 1 : val(fw, 0, o)), "general-fwd", "byte %zu of %zu received from the forward rank is wrong", o, cnt);
          c.check(RB[o] == (dir == 1 ? 2 : val(bk, 1, o)), "general-bck", "byte %zu of %zu received from the backward rank is wrong", o, cnt); }
        c.label("general"); }
    }
    c.say("%s", d); verify(d);
  }
  c.nontrivial = np > 1 || nops > 1; c.label("Ng" + std::to_string(Ng)); c.label("type" + std::to_string(g.type));
}
