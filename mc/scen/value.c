/* C22: value operations, every bit pattern of a boundary set, every location, every setting. */
#include "xfer.h"
#include "cfg.h"
void setup_value(void)
{
  cfg_base();
  mc_label("delivery %d layout %d copy %d atomic %d e2e %d win_create %d", cfg_del, cfg_layout, cfg_shr, cfg_atom, cfg_e2e, cfg_wa);
}
static const uint64_t pat[] = {0, 1, 2, ~0ULL, 1ULL<<63, 0x7fffffffffffffffULL, 0x0102030405060708ULL, 0x8000000180000001ULL, 0x7ff0000000000000ULL, 0xfff8000000000001ULL, 0x7fc000017fc00001ULL,
  0xffc00001ffc00001ULL, 0x8000000080000000ULL, 0x0000000100000000ULL, 0x00000000ffffffffULL, 0x7f8000007f800000ULL, 0x3ff8000000000000ULL, 0xdeadbeefcafef00dULL, 0x0080000000800000ULL, 0x000000ff00ff00ffULL, 0x4009215044091eb8ULL};
#define NPAT ((int)(sizeof pat/sizeof *pat))
static const char *tn[] = {"Int", "Long", "Float", "Double"}; static const int ts[] = {4, 8, 4, 8};
void rank_value(int me, int n)
{
  int origin = mc_param("origin", 0), op, t, target, ra, io, k, salt = 0, misal = mc_param("misaligned", 1);
  static const int offs[] = {0, 8, 4, 16, -1, 1, 3, 11};
  mc_init();
  x_alloc(me, n, origin, 48, 3, -1);
  mc_barrier();
  if (me == origin) for (op = 0; op < 3; op++) for (t = 0; t < 4; t++) for (target = 0; target < n; target++) for (ra = 0; ra < 3; ra++) for (io = 0; io < (misal ? 8 : 5); io++) for (k = 0; k < NPAT; k++) {
    int o = offs[io] < 0 ? XS[ra][target] - ts[t] : offs[io], rc = 0, i; unsigned char *rem = (unsigned char *)XT[ra][target] + o, v[8]; char what[160]; armci_hdl_t h;
    int iv; long lv; float fv; double dv; memcpy(v, &pat[k], 8); memcpy(&iv, v, 4); memcpy(&lv, v, 8); memcpy(&fv, v, 4); memcpy(&dv, v, 8);
    if (x_thin()) continue;
    x_refill(n, salt++);
    snprintf(what, sizeof what, "%sValue%s of %016llx, rank %d allocation %d offset %d", op == 0 ? "Put" : op == 1 ? "NbPut" : "Get", tn[t], (unsigned long long)pat[k], target, ra, o);
    if (mc_tracing()) fprintf(stderr, "case: %s\n", what);
    ARMCI_INIT_HANDLE(&h);
    if (op == 0) rc = t == 0 ? ARMCI_PutValueInt(iv, rem, target) : t == 1 ? ARMCI_PutValueLong(lv, rem, target) : t == 2 ? ARMCI_PutValueFloat(fv, rem, target) : ARMCI_PutValueDouble(dv, rem, target);
    else if (op == 1) {
      armci_hdl_t *hp = k & 1 ? &h : NULL;
      rc = t == 0 ? ARMCI_NbPutValueInt(iv, rem, target, hp) : t == 1 ? ARMCI_NbPutValueLong(lv, rem, target, hp) : t == 2 ? ARMCI_NbPutValueFloat(fv, rem, target, hp) : ARMCI_NbPutValueDouble(dv, rem, target, hp);
      if (hp) ARMCI_Wait(hp); else ARMCI_WaitProc(target);
    } else {
      unsigned char got[8];
      memcpy(x_ref(target, rem, ts[t]), v, ts[t]); mc_poke(target, rem, v, ts[t]);
      if (t == 0) { int x = ARMCI_GetValueInt(rem, target); memcpy(got, &x, 4); } else if (t == 1) { long x = ARMCI_GetValueLong(rem, target); memcpy(got, &x, 8); }
      else if (t == 2) { float x = ARMCI_GetValueFloat(rem, target); memcpy(got, &x, 4); } else { double x = ARMCI_GetValueDouble(rem, target); memcpy(got, &x, 8); }
      for (i = 0; i < ts[t]; i++) CHECK(got[i] == v[i], "value", "%s: byte %d of the result is %02x, expected %02x", what, i, got[i], v[i]);
    }
    CHECK(rc == 0, "status", "%s returned %d", what, rc);
    if (op < 2) { ARMCI_Fence(target); memcpy(x_ref(target, rem, ts[t]), v, ts[t]); }
    x_verify(n, "content", what);
    if (mc_deliver_all()) x_verify(n, "content", what);
  }
  mc_barrier();
  ARMCI_Barrier();
  x_free(me, n);
  mc_fini();
}
