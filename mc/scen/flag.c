/* C17: put-with-flag: whoever sees the flag sees the data. */
#include "cfg.h"
#define CFG(i) (100+(i))
enum { C_OP, C_TGT, C_DA, C_FA, C_OBS, C_LOC };
static void *T[3][MAXP]; static ARMCI_Group g;
#define V 0x31415926
void setup_flag(void)
{
  cfg_base();
  cfg_sm = CH("sm", 2); mc_env("ARMCI_STRIDED_METHOD", cfg_sm ? "DIRECT" : "IOV");
  cfg_iovpart();
  int n = mc_size(), op = CH("op", 2), tg = CH("tgt", n), da = CH("da", 3), fa = CH("fa", 3), ob = CH("obs", 3), lo = CH("loc", 2);
  if (CH("ord", 2)) mc_env("ARMCI_RMA_ORDERING", "none");
  mc_set(CFG(C_OP), op); mc_set(CFG(C_TGT), tg); mc_set(CFG(C_DA), da); mc_set(CFG(C_FA), fa); mc_set(CFG(C_OBS), ob); mc_set(CFG(C_LOC), lo);
  mc_label("%s to rank %d, data in allocation %d, flag in %d, observed by %s, strided %d iov %s copy %d atomic %d", op ? "PutS_flag" : "Put_flag", tg, da, fa, ob == 0 ? "load" : ob == 1 ? "get" : "get of flag and data in reverse", cfg_sm, cfg_iovm[cfg_im], cfg_shr, cfg_atom);
}
void rank_flag(int me, int n)
{
  int op = (int)mc_get(CFG(C_OP)), tgt = (int)mc_get(CFG(C_TGT)), da = (int)mc_get(CFG(C_DA)), fa = (int)mc_get(CFG(C_FA)), obs = (int)mc_get(CFG(C_OBS)), lo = (int)mc_get(CFG(C_LOC)), i, j, gl[MAXP], rc; void *t[MAXP];
  unsigned char *data, *src; int *flag;
  mc_init();
  for (i = 0; i < 2; i++) { mc_alloc(T[i], 96); memset(T[i][me], 0, 96); }
  for (i = 0; i < n; i++) gl[i] = n-1-i;
  mc_group(n, gl, &g); rc = ARMCI_Malloc_group(t, 96, &g); CHECK(rc == 0, "malloc", "Malloc_group returned %d", rc); for (i = 0; i < n; i++) T[2][gl[i]] = t[i]; memset(T[2][me], 0, 96);
  data = (unsigned char *)T[da][tgt] + 8; flag = (int *)((char *)T[fa][tgt] + 80);
  src = lo ? (unsigned char *)T[(da+1) % 3][me] + 32 : malloc(32);
  if (me == 0) for (i = 0; i < 24; i++) src[i] = (unsigned char)(i+1);
  ARMCI_Barrier();
  mc_begin();
  if (me == 0) {
    int cnt[2] = {8, 3}, ls = 8, rs = 16;
    if (op) rc = ARMCI_PutS_flag(src, &ls, data, &rs, cnt, 1, flag, V, tgt); else rc = ARMCI_Put_flag(src, data, 24, flag, V, tgt);
    CHECK(rc == 0, "status", "%s reports %d on success", op ? "ARMCI_PutS_flag" : "ARMCI_Put_flag", rc);
    for (i = 0; i < 24; i++) src[i] = 0xEE;
    ARMCI_Fence(tgt);
    mc_set(0, 1);
  }
  if (me == n-1) {                                       /* the observer: the target itself or a third process */
    int f = 0, at = me == tgt && obs == 0; unsigned char d[48];
    if (!at && obs == 0 && me != tgt) obs = 1;
    mc_yield();
    int fenced = (int)mc_get(0);
    if (at) f = *(volatile int *)flag; else ARMCI_Get(flag, &f, 4, tgt);
    CHECK(f == 0 || f == V, "flag-value", "the flag reads %x", f);
    CHECK(f == V || !fenced, "flag-lost", "the flag reads %x after the fence", f);
    if (f == V) {
      if (at) memcpy(d, data, 40); else if (obs == 2) { ARMCI_Get(data+20, d+20, 20, tgt); ARMCI_Get(data, d, 20, tgt); } else ARMCI_Get(data, d, 40, tgt);
      for (i = 0; i < 24; i++) { j = op ? i/8*16 + i%8 : i; CHECK(d[j] == i+1, "order", "the flag is set but data byte %d is %02x", i, d[j]); }
    }
  }
  mc_end();
  mc_barrier();
  if (me == tgt) { CHECK(*flag == V, "flag-lost", "the flag is %x after the fence", *flag); for (i = 0; i < 24; i++) { j = op ? i/8*16 + i%8 : i; CHECK(data[j] == i+1, "data-lost", "data byte %d is %02x after the fence", i, data[j]); } }
  ARMCI_Barrier();
  ARMCI_Free_group(T[2][me], &g); ARMCI_Group_free(&g);
  ARMCI_Free(T[1][me]); ARMCI_Free(T[0][me]);
  if (!lo) free(src);
  mc_fini();
}
