/* C14: messaging primitives. */
#include "common.h"
#define CH(name, k) (mc_param(name, -1) >= 0 ? mc_param(name, -1) : mc_choose(k))
#define CFG(i) (100+(i))
#define GB 512
static const int scopes[] = {SCOPE_ALL, SCOPE_MASTERS, SCOPE_NODE};
/* ---- selection ---- */
void setup_sel(void)
{
  int o = CH("order", 4), s = CH("seg", 5), shr = CH("shr", 2), c;
  mc_opt("red_order", o); mc_opt("red_seg", s == 4 ? 9 : s);
  if (shr) mc_env("ARMCI_SHR_BUF_METHOD", "COPY");
  c = CH("layout", 2); mc_opt("layout", c);
  mc_label("association %d segmentation %d copy %d layout %d", o, s, shr, c);
}
static const int types[] = {ARMCI_INT, ARMCI_LONG, ARMCI_LONG_LONG, ARMCI_FLOAT, ARMCI_DOUBLE};
static const int sz[] = {4, 8, 8, 4, 8};
static double key_f(int r, int p) { static const double k[4][8] = {{1, -2, 0.5, 7, -2, 3, 0, 9}, {5, 5, 5, 5, 5, 5, 5, 5}, {-3e30, 3e30, -1e-30, 0, 3e30, 1, 2, 4}, {0, -0.25, 0.25, 0.125, 4, 3, -7, 1}}; return k[p][r]; }
static long long key_i(int r, int p, int ty)
{
  static const long long k[4][8] = {{1, -2, 0, 7, -2, 3, 0, 9}, {5, 5, 5, 5, 5, 5, 5, 5}, {0x7fffffff, -0x7fffffff-1LL, 0, 0x7ffffffe, 1, 2, 3, 4}, {0x100000000LL, 1, -0x100000000LL, 2, 0x100000001LL, 0, 5, 6}};
  if (ty == 0 && p == 3) return 100 - r;
  return k[p][r];
}
static void mk(unsigned char *b, int r, int ty, int p, int len)
{
  int i; for (i = 0; i < len; i++) b[i] = (unsigned char)(r*37 + i*11 + 3);
  if (ty == 0) { int v = (int)key_i(r, p, ty); memcpy(b, &v, 4); } else if (ty < 3) { long long v = key_i(r, p, ty); memcpy(b, &v, 8); }
  else if (ty == 3) { float v = (float)key_f(r, p); memcpy(b, &v, 4); } else { double v = key_f(r, p); memcpy(b, &v, 8); }
}
static int less(int a, int b, int ty, int p) { return ty < 3 ? key_i(a, p, ty) < key_i(b, p, ty) : ty == 3 ? (float)key_f(a, p) < (float)key_f(b, p) : key_f(a, p) < key_f(b, p); }
void rank_sel(int me, int n)
{
  void *T[MAXP]; int op, ty, p, l, m, sc, buf, i, api, every = mc_param("every", 1), cnt = 0; static const int pay[] = {0, 1, 8, 23, 100}; unsigned char ref[GB], want[GB], other[MAXP][GB];
  mc_init();
  mc_alloc(T, GB);
  for (op = 0; op < 2; op++) for (ty = 0; ty < 5; ty++) for (p = 0; p < 4; p++) for (l = 0; l < 5; l++) for (m = 1; m < 1 << n; m++) for (sc = 0; sc < 4; sc++) for (buf = 0; buf < 2; buf++) {
    int len = sz[ty] + pay[l], ok = 0, best = -1, r; unsigned char *x;
    api = sc == 3;
    if (cnt++ % every) continue;
    mc_case();
    memset(ref, 0xa5, GB); mk(ref+64, me, ty, p, len);
    memcpy(T[me], ref, GB);
    x = buf ? (unsigned char *)T[me] + 64 : malloc(len);
    if (!buf) memcpy(x, ref+64, len);
    if (api) armci_msg_sel(x, len, op ? "max" : "min", types[ty], m >> me & 1); else armci_msg_sel_scope(scopes[sc], x, len, op ? "max" : "min", types[ty], m >> me & 1);
    if (sc == 2) { if (m >> me & 1) CHECK(!memcmp(x, ref+64, len), "select", "selection in the scope of the node does not return the caller's own contribution"); ok = 1; }
    else {
      for (r = 0; r < n; r++) if ((m >> r & 1) && (best < 0 || (op ? less(best, r, ty, p) : less(r, best, ty, p)))) best = r;
      for (r = 0; r < n; r++) if ((m >> r & 1) && !less(best, r, ty, p) && !less(r, best, ty, p)) { mk(want, r, ty, p, len); if (!memcmp(want, x, len)) ok = 1; }
    }
    CHECK(ok, "select", "%s of type %d, %d bytes, contributions %x, keys %d, scope %d, buffer %d: rank %d holds %02x%02x%02x%02x.. which is not the contribution of rank %d", op ? "max" : "min", ty, len, m, p, sc, buf, me, x[0], x[1], x[2], x[3], best);
    if (sc != 2) { memcpy((unsigned char *)mc_ghost_mem + 4096 + me*GB, x, len); mc_barrier(); for (r = 0; r < n; r++) CHECK(!memcmp(mc_ghost_mem + 4096 + r*GB, x, len), "select-agree", "ranks %d and %d hold different selections", me, r); }
    mc_barrier();
    if (buf) { memcpy(ref+64, x, len); CHECK(!memcmp(ref, T[me], GB), "outside", "selection of %d bytes changed memory outside of the buffer", len); } else { CHECK(!memcmp(ref, T[me], GB), "outside", "selection of %d bytes changed memory outside of the buffer", len); free(x); }
  }
  (void)i; (void)other;
  mc_barrier();
  ARMCI_Free(T[me]);
  mc_fini();
  mc_leakcheck("sel");
}
/* ---- broadcast and tree ---- */
void setup_bcast(void)
{
  int shr = CH("shr", 2), g = CH("grp", 4), c = CH("cache", 2), lay = CH("layout", 2), sync = CH("sync", 2);
  if (shr) mc_env("ARMCI_SHR_BUF_METHOD", "COPY");
  if (c) mc_env("ARMCI_CACHE_RANK_TRANSLATION", "0");
  mc_opt("layout", lay); mc_opt("bcast_sync", sync);
  mc_set(CFG(0), g);
  mc_label("copy %d group %d cache %d layout %d sync %d", shr, g, !c, lay, sync);
}
void rank_bcast(int me, int n)
{
  void *T[MAXP]; ARMCI_Group g; int gk = (int)mc_get(CFG(0)), mem[MAXP], nm = 0, i, member = 0, r, l, sc, buf, api; static const int ls[] = {0, 1, 8, 33, 256}; unsigned char ref[GB];
  mc_init();
  mc_alloc(T, GB);
  if (gk == 0) { ARMCI_Group_get_world(&g); for (i = 0; i < n; i++) mem[nm++] = i; }
  else if (gk == 1) { for (i = 0; i < n; i++) mem[nm++] = n-1-i; mc_group(nm, mem, &g); }
  else if (gk == 2) { if (n == 1) mc_skip(); for (i = 1; i < n; i++) mem[nm++] = i; mc_group(nm, mem, &g); }
  else { mem[nm++] = n-1; mc_group(nm, mem, &g); }
  for (i = 0; i < nm; i++) member |= mem[i] == me;
  if (member) for (api = 0; api < 4; api++) for (r = 0; r < nm; r++) for (l = 0; l < 5; l++) for (sc = 0; sc < 3; sc++) for (buf = 0; buf < 4; buf++) {
    int len = ls[l], root = mem[r]; unsigned char *x;
    if (api && gk) continue;
    if (api > 1 && sc) continue;
    mc_case();
    for (i = 0; i < GB; i++) ref[i] = (unsigned char)(me*53 + i*7 + l);
    memcpy(T[me], ref, GB);
    /* private on all, global on all, global on the root only, global elsewhere only */
    int gl = buf == 0 ? 0 : buf == 1 ? 1 : buf == 2 ? me == root : me != root;
    if (gl) x = (unsigned char *)T[me] + 32; else { x = malloc(len+8); memcpy(x, ref+32, len+8); }
    switch (api) {
      case 0: armci_msg_group_bcast_scope(scopes[sc], x, len, root, &g); break;
      case 1: armci_msg_bcast_scope(scopes[sc], x, len, root); break;
      case 2: armci_msg_bcast(x, len, root); break;
      default: armci_msg_brdcst(x, len, root); break;
    }
    for (i = 0; i < len; i++) { int w = sc == 2 ? ref[32+i] : (unsigned char)(root*53 + (32+i)*7 + l); CHECK(x[i] == w, "value", "broadcast of %d bytes from %d, scope %d, api %d: byte %d on rank %d is %02x, expected %02x", len, root, sc, api, i, me, x[i], w); }
    if (gl) { memcpy(ref+32, x, len); CHECK(!memcmp(ref, T[me], GB), "outside", "broadcast of %d bytes changed memory outside of the buffer", len); }
    else { CHECK(!memcmp(ref+32+len, x+len, 8), "outside", "broadcast of %d bytes changed memory behind the buffer", len); free(x); }
  }
  if (member && gk == 0) {
    int root = -9, up = -9, left = -9, right = -9; for (sc = 0; sc < 2; sc++) {
    armci_msg_bintree(scopes[sc], &root, &up, &left, &right);
    int *G = (int *)(mc_ghost_mem + 4096); G[me*4] = root; G[me*4+1] = up; G[me*4+2] = left; G[me*4+3] = right;
    mc_barrier();
    int seen[MAXP] = {0}, stack[4*MAXP], sp = 0, cnt = 0;
    for (i = 0; i < n; i++) { CHECK(G[i*4] == G[0] && G[0] >= 0 && G[0] < n, "tree", "ranks 0 and %d name different roots %d and %d", i, G[0], G[i*4]);
      int k; for (k = 2; k < 4; k++) { int c = G[i*4+k]; CHECK(c >= -1 && c < n, "tree", "rank %d has child %d", i, c); if (c >= 0) CHECK(G[c*4+1] == i, "tree", "rank %d has child %d, whose parent is %d", i, c, G[c*4+1]); }
      if (i == G[0]) CHECK(G[i*4+1] == -1, "tree", "the root has parent %d", G[i*4+1]); }
    stack[sp++] = G[0];
    while (sp) { int v = stack[--sp]; CHECK(!seen[v], "tree", "rank %d is reached twice", v); seen[v] = 1; cnt++; if (G[v*4+2] >= 0) stack[sp++] = G[v*4+2]; if (G[v*4+3] >= 0) stack[sp++] = G[v*4+3]; }
    CHECK(cnt == n, "tree", "the tree has %d of %d processes", cnt, n);
    mc_barrier(); }
    up = -9; armci_msg_bintree(SCOPE_NODE, &root, &up, &left, &right);
    CHECK(root == me && up == -1 && left == -1 && right == -1, "tree", "the tree of the node of rank %d is root %d, up %d, left %d, right %d", me, root, up, left, right);
  }
  if (gk && member) ARMCI_Group_free(&g);
  ARMCI_Free(T[me]);
  mc_fini();
}
/* ---- point to point: ranks 1.. send to rank 0, every matching order ---- */
void setup_p2p(void)
{
  int shr = CH("shr", 2), pat = CH("pat", 5), buf = CH("buf", 2), sync = CH("sync", 2);
  if (shr) mc_env("ARMCI_SHR_BUF_METHOD", "COPY");
  mc_opt("sync_send", sync);
  mc_set(CFG(0), pat); mc_set(CFG(1), buf);
  mc_label("copy %d pattern %d buffer %d sync %d", shr, pat, buf, sync);
}
static int mlen(int s, int k) { static const int l[3][3] = {{0, 0, 0}, {24, 1, 8}, {5, 0, 40}}; return l[s % 3][k % 3]; }
static unsigned char mbyte(int s, int k, int i) { return (unsigned char)(s*64 + k*16 + i + 1); }
void rank_p2p(int me, int n)
{
  void *T[MAXP]; int pat = (int)mc_get(CFG(0)), buf = (int)mc_get(CFG(1)), k, i, rounds = mc_param("rounds", 2), got[MAXP] = {0}, tag; unsigned char ref[GB];
  mc_init();
  mc_alloc(T, GB);
  memset(T[me], 0xcc, GB);
  ARMCI_Barrier();
  mc_begin();
  if (me) for (k = 0; k < rounds; k++) {
    int len = mlen(me, k); unsigned char *x = buf ? (unsigned char *)T[me] + 64 : malloc(len + 1);
    for (i = 0; i < len; i++) x[i] = mbyte(me, k, i);
    tag = pat == 1 ? 10 + me : pat == 2 ? 10 + k : pat == 4 ? 10 + (rounds-1-k) : 10;
    armci_msg_snd(tag, x, len, 0);
    memset(x, 0xee, len);
    if (!buf) free(x);
  } else {
    int total = (n-1)*rounds, cntm = 0;
    for (k = 0; k < total; k++) {
      int src, len = -1, any, size = 48, s, q; unsigned char *x;
      memset(ref, 0xcc, GB); memset(T[0], 0xcc, GB);
      x = buf ? (unsigned char *)T[0] + 64 : malloc(size);
      memset(x, 0xcc, size);
      any = pat == 0 || pat == 2 || pat == 4;
      if (pat == 3) any = k & 1;
      s = 1 + k % (n-1);
      if (any && pat == 3) { /* any source after a directed one: something may be left from any sender */ }
      tag = pat == 1 ? 10 + s : pat == 2 ? 10 + k/(n-1) : pat == 4 ? 10 + k/(n-1) : 10;
      if (!any && pat == 3 && got[s] >= rounds) { any = 1; }
      if (any) src = armci_msg_rcvany(tag, x, size, &len);
      else { src = s; armci_msg_rcv(tag, x, size, (k & 2) && pat == 1 ? NULL : &len, s); if ((k & 2) && pat == 1) len = mlen(s, got[s]); }
      CHECK(src >= 1 && src < n, "source", "receive-any returned source %d", src);
      q = got[src]++;      /* the q-th message of this source with this tag */
      if (pat == 2) q = tag - 10;
      if (pat == 4) q = rounds-1-(tag-10);
      CHECK(q < rounds, "source", "too many messages from %d", src);
      CHECK(len == mlen(src, q), "length", "message %d of rank %d: length %d, %d bytes were sent", q, src, len, mlen(src, q));
      for (i = 0; i < size; i++) { int w = i < len ? mbyte(src, q, i) : 0xcc; CHECK(x[i] == w, i < len ? "value" : "outside", "message %d of rank %d (%d bytes): byte %d of the buffer is %02x, expected %02x", q, src, len, i, x[i], w); }
      if (!buf) free(x); else { memcpy(ref+64, x, size); CHECK(!memcmp(ref, T[0], GB), "outside", "the receive changed memory outside of the buffer"); }
      cntm++;
    }
    CHECK(cntm == total, "count", "%d of %d messages", cntm, total);
  }
  mc_end();
  ARMCI_Barrier();
  ARMCI_Free(T[me]);
  mc_fini();
  mc_leakcheck("p2p");
}
