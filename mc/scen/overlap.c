/* C15: vector transfers whose destination segments share bytes, overlap checking on: recognised, and carried out so that MPI never sees the overlap. */
#include "xfer.h"
#include "cfg.h"
#define CH(name, k) (mc_param(name, -1) >= 0 ? mc_param(name, -1) : mc_choose(k))
void setup_overlap(void) { cfg_iov(); if (!cfg_checks) mc_skip(); mc_set(100, CH("span", 2)); }
#define G 6
void rank_overlap(int me, int n)
{
  static int salt; int op, c, i, j, sz, target, span = (int)mc_get(100); unsigned long N, q; char what[300]; void *S[4], *D[4], *s0[4], *d0[4]; armci_giov_t iov; armci_hdl_t h;
  mc_init();
  x_alloc(me, n, 0, 160, 3, -1);
  mc_barrier();
  if (me == 0) for (op = 0; op < 5; op++) for (target = 0; target < n && target < 2; target++) for (c = 2; c <= 4; c++) for (sz = 1; sz <= 9; sz += 4) {
    for (N = 1, i = 0; i < c; i++) N *= G;
    for (q = 0; q < N; q++) {
      unsigned long x = q; int step = sz == 1 ? 1 : 4, p[4], rc = 0;
      for (i = 0; i < c; i++) { p[i] = x % G * step; x /= G; }
      if (x_thin()) continue;
      x_refill(n, salt++);
      unsigned char *pr = x_priv(80);
      for (i = 0; i < c; i++) {
        unsigned char *rem = (unsigned char *)XT[span ? i & 1 : 0][target] + 32;
        if (op % 2 == 0) { D[i] = rem + p[i]; S[i] = pr + 1 + 11*i; } else { S[i] = rem + 11*i; D[i] = pr + 1 + p[i]; }
      }
      memcpy(s0, S, sizeof S); memcpy(d0, D, sizeof D);
      snprintf(what, sizeof what, "%s of %d segments of %d bytes at %d %d %d %d%s, process %d", op == 0 ? "PutV" : op == 1 ? "GetV" : op == 2 ? "NbPutV" : op == 3 ? "NbGetV" : "PutV (twice)", c, sz, p[0], p[1], c > 2 ? p[2] : -1, c > 3 ? p[3] : -1, span ? " of two allocations" : "", target);
      if (mc_tracing()) fprintf(stderr, "case: %s\n", what);
      iov.src_ptr_array = S; iov.dst_ptr_array = D; iov.bytes = sz; iov.ptr_array_len = c;
      ARMCI_INIT_HANDLE(&h);
      switch (op) { case 0: rc = ARMCI_PutV(&iov, 1, target); break; case 1: rc = ARMCI_GetV(&iov, 1, target); break; case 2: rc = ARMCI_NbPutV(&iov, 1, target, &h); ARMCI_Wait(&h); break;
        case 3: rc = ARMCI_NbGetV(&iov, 1, target, &h); ARMCI_Wait(&h); break; default: rc = ARMCI_PutV(&iov, 1, target); if (!rc) rc = ARMCI_PutV(&iov, 1, target); }
      CHECK(rc == 0, "status", "%s returned %d", what, rc);
      ARMCI_Fence(target); mc_deliver_all();
      /* blocking gets take the segments in turn; otherwise a shared byte may come from any of the segments that cover it */
      for (i = 0; i < c; i++) for (j = 0; j < sz; j++) {
        unsigned char *dst = (unsigned char *)D[i] + j, got; int k, hit = 0;
        if (op % 2 == 0) mc_peek(target, dst, &got, 1); else got = *dst;
        for (k = 0; k < c; k++) {
          long o = dst - (unsigned char *)D[k];
          if (o < 0 || o >= sz) continue;
          int eq = *x_ref(op % 2 ? target : me, (unsigned char *)S[k] + o, 1) == got;
          if (op == 1) hit = eq; else hit |= eq;
        }
        CHECK(hit, "content", "%s: byte %d of destination segment %d is %02x", what, j, i, got);
      }
      /* adopt what the destination segments hold, everything else must be unchanged */
      for (i = 0; i < c; i++) for (j = 0; j < sz; j++) { unsigned char *dst = (unsigned char *)D[i] + j, *m = op % 2 ? x_ref(me, dst, 1) : x_ref(target, dst, 1); if (op % 2 == 0) mc_peek(target, dst, m, 1); else *m = *dst; }
      x_verify(n, "content", what);
      CHECK(!memcmp(s0, S, sizeof(void *)*c) && !memcmp(d0, D, sizeof(void *)*c), "args", "%s changed its descriptor", what);
    }
  }
  mc_barrier(); ARMCI_Barrier();
  x_free(me, n);
  mc_fini();
}
