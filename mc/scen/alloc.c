/* C11: every history of collective allocations and frees over several groups, with zero sizes, null and interior pointers. */
#include "common.h"
#define CH(name, k) (mc_param(name, -1) >= 0 ? mc_param(name, -1) : mc_choose(k))
#define ML 64
#define NG 5
typedef struct { int live, g, id, size[MAXP]; void *base[MAXP]; } al_t;      /* indexed by absolute id */
static al_t A[ML]; static int nlive, nextid, N, ME;
static ARMCI_Group G[NG]; static int gm[NG][MAXP], gn[NG];
static int memdev;
void setup_alloc(void)
{
  int lay = CH("layout", 3), re = CH("arena", 2), wa = CH("winalloc", 2), shr = CH("shr", 2), z = CH("zero", 2), c = CH("cache", 2), d = CH("debug", 2);
  mc_opt("layout", LAY(lay)); mc_opt("arena_reuse", re); mc_opt("zero_alloc_null", z);
  if (wa) mc_env("ARMCI_USE_WIN_ALLOCATE", "0");
  if (shr) mc_env("ARMCI_SHR_BUF_METHOD", "COPY");
  if (c) mc_env("ARMCI_CACHE_RANK_TRANSLATION", "0");
  if (d) mc_env("ARMCI_DEBUG_ALLOC", "1");
  mc_set(100, lay + 3*(re + 2*(wa + 2*(shr + 2*(z + 2*(c + 2*d))))));
  mc_label("layout %d reuse %d winalloc %d shr %d zero %d nocache %d debug %d", lay, re, wa, shr, z, c, d);
}
static int member(int g, int r) { for (int i = 0; i < gn[g]; i++) if (gm[g][i] == r) return 1; return 0; }
static int grank(int g, int r) { for (int i = 0; i < gn[g]; i++) if (gm[g][i] == r) return i; return -1; }
static int size_of(int pat, int i, int nm)
{
  switch (pat) {
    case 0: return i ? 121 + 8*i : 17;      /* on both sides of the threshold of the granularity hint */
    case 1: return i == 0 ? 0 : 24;
    case 2: return i == nm-1 ? 9 : 0;
    case 3: return 0;
    case 4: return i == nm-1 ? 0 : 1;
    case 5: return i & 1 ? 0 : 40;
    default: return 8;
  }
}
static unsigned char byte(const al_t *a, int r, int off) { return mc_pat(r, a->id, off); }
static void check_all(const char *when)
{
  int i, r, o; unsigned char buf[200];
  for (i = 0; i < nlive; i++) { al_t *a = &A[i]; if (!member(a->g, ME)) continue;
    for (r = 0; r < N; r++) if (a->size[r]) {
      memset(buf, 0xee, sizeof buf);
      if (r == ME) memcpy(buf, a->base[r], a->size[r]); else CHECK(ARMCI_Get(a->base[r], buf, a->size[r], r) == 0, "get", "a get from a live allocation failed %s", when);
      for (o = 0; o < (int)sizeof buf; o++) { int w = o < a->size[r] ? byte(a, r, o) : 0xee; CHECK(buf[o] == w, "contents", "%s: byte %d of rank %d in allocation %d is %02x, expected %02x", when, o, r, i, buf[o], w); }
    } }
}
static void do_alloc(int g, int pat)
{
  al_t *a = &A[nlive++]; int i, j, k, rc; void *t[MAXP]; void **gh = (void **)(mc_ghost_mem + 4096);
  memset(a, 0, sizeof *a);
  a->g = g; a->id = nextid++;
  for (i = 0; i < gn[g]; i++) a->size[gm[g][i]] = size_of(pat, i, gn[g]);
  if (member(g, ME)) {
    for (i = 0; i < MAXP; i++) t[i] = (void *)0x5a5a;
    if (memdev) rc = g ? ARMCI_Malloc_group_memdev(t, a->size[ME], &G[g], "cpu") : ARMCI_Malloc_memdev(t, a->size[ME], "cpu");
    else rc = g ? ARMCI_Malloc_group(t, a->size[ME], &G[g]) : ARMCI_Malloc(t, a->size[ME]);
    CHECK(rc == 0, "malloc", "allocation returned %d", rc);
    for (i = gn[g]; i < MAXP; i++) CHECK(t[i] == (void *)0x5a5a, "table", "the pointer table was written beyond the group");
    for (i = 0; i < gn[g]; i++) { int r = gm[g][i]; a->base[r] = t[i]; gh[ME*MAXP+i] = t[i];
      CHECK((t[i] == NULL) == (a->size[r] == 0), "null", "the entry of a member that asked for %d bytes is %p", a->size[r], t[i]); }
    if (a->size[ME]) {
      CHECK(mc_addr_is_live(a->base[ME], a->size[ME]), "live", "the allocated memory is not usable");
      for (k = 0; k < nlive-1; k++) if (A[k].size[ME]) CHECK((char *)a->base[ME] + a->size[ME] <= (char *)A[k].base[ME] || (char *)A[k].base[ME] + A[k].size[ME] <= (char *)a->base[ME], "overlap", "two live allocations overlap");
      for (i = 0; i < a->size[ME]; i++) ((unsigned char *)a->base[ME])[i] = byte(a, ME, i);
    }
  }
  mc_barrier();
  if (member(g, ME)) for (i = 0; i < gn[g]; i++) for (j = 0; j < gn[g]; j++) CHECK(gh[gm[g][i]*MAXP+j] == a->base[gm[g][j]], "agree", "members %d and %d hold different base pointers", gm[g][i], ME);
  /* each member writes the last byte of its successor's memory; everybody sees it */
  if (member(g, ME)) { int nx = gm[g][(grank(g, ME)+1) % gn[g]]; unsigned char v;
    if (a->size[nx]) { v = byte(a, nx, a->size[nx]-1); CHECK(ARMCI_Put(&v, (char *)a->base[nx] + a->size[nx]-1, 1, nx) == 0, "put", "put failed"); ARMCI_Fence(nx); } }
  mc_barrier();
  check_all("after an allocation");
  mc_barrier();
}
static int do_free(int k, int style)
{
  al_t a = A[k]; int i, before, after, any = 0, first = -1; void *p = NULL;
  for (i = 0; i < gn[a.g]; i++) if (a.size[gm[a.g][i]]) { any = 1; if (first < 0) first = gm[a.g][i]; }
  if (!any && style) return 0;
  before = mc_resources(MC_WINS);
  if (member(a.g, ME)) {
    int s = a.size[ME]; char *b = a.base[ME];
    if (s) switch (style) {
      case 0: p = b; break;
      case 1: p = b + s - 1; break;
      case 2: p = ME & 1 ? b : b + s/2; break;
      default: p = ME == first ? b : NULL; break;        /* only one member names the allocation */
    }
    CHECK((memdev ? ARMCI_Free_memdev(p) : a.g ? ARMCI_Free_group(p, &G[a.g]) : ARMCI_Free(p)) == 0, "free", "free returned a failure");
    after = mc_resources(MC_WINS);
    CHECK(after == before - any, "window", "%d windows before the free, %d after it", before, after);
    if (s) CHECK(!mc_addr_is_live(b, s), "release", "the memory is still allocated after the free");
  }
  for (i = k; i < nlive-1; i++) A[i] = A[i+1];
  nlive--;
  mc_barrier();
  check_all("after a free");
  mc_barrier();
  return 1;
}
void rank_alloc(int me, int n)
{
  int i, g, K = mc_param("K", 3), every = mc_param("every", 1), np = mc_param("pats", 6), ng = mc_param("groups", NG), ns = mc_param("styles", 4), d, digit[8], cap = mc_param("live", 3), base;
  long s, total = 1, cnt = 0; int wins, heap, arena; void *loc[4];
  memdev = mc_param("memdev", 0); if (memdev) ng = 1;
  mc_init(); N = n; ME = me; nlive = nextid = 0; memset(A, 0, sizeof A);
  ARMCI_Group_get_world(&G[0]); for (i = 0; i < n; i++) gm[0][i] = i; gn[0] = n;
  for (i = 0; i < n; i++) gm[1][i] = n-1-i; gn[1] = n; mc_group(gn[1], gm[1], &G[1]);
  for (i = 1; i < n; i++) gm[2][i-1] = i; gn[2] = n-1; mc_group(gn[2], gm[2], &G[2]);
  gm[3][0] = 0; gn[3] = 1; mc_group(1, gm[3], &G[3]);
  for (i = 0; i < n-1; i++) gm[4][i] = (i + 1) % (n-1); gn[4] = n-1; mc_group(gn[4], gm[4], &G[4]);
  if (n == 1) ng = 2;
  wins = mc_resources(MC_WINS); heap = mc_resources(MC_HEAP); arena = mc_resources(MC_ARENA);
  base = np*ng + cap*ns;
  for (i = 0; i < K; i++) total *= base;
  for (s = 0; s < total; s++) {
    int l = 0, ok = 1; long x = s;
    for (d = 0; d < K; d++) { digit[d] = x % base; x /= base; if (digit[d] < np*ng) { l++; if (l > cap) ok = 0; } else { int k = (digit[d] - np*ng)/ns; if (k >= l) ok = 0; l--; } }
    if (!ok || digit[0] >= np*ng) continue;
    if (cnt++ % every != mc_get(100)*5 % every) continue;      /* sub-space: a different residue for every setting */
    mc_case();
    for (d = 0; ok && d < K; d++) {
      if (digit[d] < np*ng) { g = digit[d] / np; do_alloc(g, digit[d] % np); }
      else { int k = (digit[d] - np*ng)/ns; ok = do_free(k, (digit[d] - np*ng) % ns); }
    }
    while (nlive) do_free(s & 1 ? nlive-1 : 0, 0);
    CHECK(mc_resources(MC_WINS) == wins && mc_resources(MC_HEAP) == heap && mc_resources(MC_ARENA) == arena, "resources", "after freeing everything %d windows, %d heap blocks, %d window memory blocks remain; %d, %d, %d before", mc_resources(MC_WINS), mc_resources(MC_HEAP), mc_resources(MC_ARENA), wins, heap, arena);
  }
  /* local allocations */
  for (i = 0; i < 4; i++) { loc[i] = ARMCI_Malloc_local(1 + 100*i); CHECK(loc[i] && mc_addr_is_live(loc[i], 1 + 100*i), "local", "local allocation"); memset(loc[i], i, 1 + 100*i); }
  for (i = 0; i < 4; i++) { int o; for (o = 0; o < 1 + 100*i; o++) CHECK(((char *)loc[i])[o] == i, "local", "local allocations overlap"); }
  for (i = 0; i < 4; i++) CHECK(ARMCI_Free_local(loc[(i*3+1) & 3]) == 0, "local", "free of a local allocation");
  CHECK(mc_resources(MC_ARENA) == arena, "resources", "local allocations remain");
  for (g = 1; g < NG; g++) ARMCI_Group_free(&G[g]);
  mc_fini();
  mc_leakcheck("alloc");
}
/* many live allocations: cnt of them over all groups, freed (and partly replaced) in an order given by the variant */
void setup_amany(void) { setup_alloc(); mc_set(101, mc_choose(6)); mc_set(102, mc_choose(3)); mc_label("order %d sizes %d", (int)mc_get(101), (int)mc_get(102)); }
void rank_amany(int me, int n)
{
  int i, g, cnt = mc_param("cnt", 24), ord = (int)mc_get(101), sz = (int)mc_get(102), ng = NG, wins, heap, arena, round, k;
  mc_init(); N = n; ME = me; nlive = nextid = 0; memset(A, 0, sizeof A);
  ARMCI_Group_get_world(&G[0]); for (i = 0; i < n; i++) gm[0][i] = i; gn[0] = n;
  for (i = 0; i < n; i++) gm[1][i] = n-1-i; gn[1] = n; mc_group(gn[1], gm[1], &G[1]);
  for (i = 1; i < n; i++) gm[2][i-1] = i; gn[2] = n-1; if (n > 1) mc_group(gn[2], gm[2], &G[2]);
  gm[3][0] = 0; gn[3] = 1; mc_group(1, gm[3], &G[3]);
  for (i = 0; i < n-1; i++) gm[4][i] = (i + 1) % (n-1); gn[4] = n-1; if (n > 1) mc_group(gn[4], gm[4], &G[4]);
  if (n == 1) ng = 2;
  wins = mc_resources(MC_WINS); heap = mc_resources(MC_HEAP); arena = mc_resources(MC_ARENA);
  for (round = 0; round < 2; round++) {
    while (nlive < cnt) { mc_case(); do_alloc((nextid*(1+round)) % ng, sz == 0 ? 6 : (nextid/2 + sz) % 6); }
    for (i = 0; nlive > (round ? 0 : cnt/3); i++) {
      switch (ord) { case 0: k = 0; break; case 1: k = nlive-1; break; case 2: k = nlive/2; break; case 3: k = i & 1 ? 0 : nlive-1; break; case 4: k = (i*7 + 3) % nlive; break; default: k = nlive > 1 ? 1 : 0; }
      mc_case();
      if (!do_free(k, i % 4)) do_free(k, 0);
    }
  }
  CHECK(mc_resources(MC_WINS) == wins && mc_resources(MC_HEAP) == heap && mc_resources(MC_ARENA) == arena, "resources", "after freeing everything %d windows, %d heap blocks, %d window memory blocks remain; %d, %d, %d before", mc_resources(MC_WINS), mc_resources(MC_HEAP), mc_resources(MC_ARENA), wins, heap, arena);
  for (g = 1; g < NG; g++) if (n > 1 || g == 1 || g == 3) ARMCI_Group_free(&G[g]);
  mc_fini();
  mc_leakcheck("amany");
}
