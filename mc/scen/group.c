/* C12: group creation (list, split, duplication; collective and not; nested), translation, use and release. */
#include "common.h"
#include <message.h>
#include <armci_internals.h>
#define CH(name, k) (mc_param(name, -1) >= 0 ? mc_param(name, -1) : mc_choose(k))
#define CFG(i) (100+(i))
void setup_group(void)
{
  int c = CH("cache", 2), nc = CH("noncoll", 2), o = CH("callers", 2), lay = CH("layout", 2);
  if (c) mc_env("ARMCI_CACHE_RANK_TRANSLATION", "0");
  if (nc) mc_env("ARMCI_NONCOLLECTIVE_GROUPS", "1"); else if (o) mc_skip();
  mc_opt("layout", lay);
  mc_set(CFG(0), nc); mc_set(CFG(1), o);
  mc_label("cache %d noncollective %d only members call %d layout %d", !c, nc, o, lay);
}
typedef struct { ARMCI_Group g; int mem[MAXP], n, called; } grp_t;
static int N, ME;
static int idx(const grp_t *g, int r) { for (int i = 0; i < g->n; i++) if (g->mem[i] == r) return i; return -1; }
static void check(grp_t *g, const char *what, int use)
{
  int i, r = -99, s = -99, k = idx(g, ME), rc;
  if (!g->called) return;
  rc = ARMCI_Group_rank(&g->g, &r); ARMCI_Group_size(&g->g, &s);
  if (k < 0) { CHECK(rc != 0 && r < 0 && s == 0, "nonmember", "%s: process %d is not a member, but has rank %d (return %d) of %d", what, ME, r, rc, s); return; }
  CHECK(rc == 0 && r == k && s == g->n, "rank", "%s: process %d has rank %d of %d, expected %d of %d", what, ME, r, s, k, g->n);
  for (i = 0; i < g->n; i++) CHECK(ARMCI_Absolute_id(&g->g, i) == g->mem[i], "absolute", "%s: member %d is process %d, expected %d", what, i, ARMCI_Absolute_id(&g->g, i), g->mem[i]);
  for (i = 0; i < N; i++) { int t = ARMCII_Translate_absolute_to_group(&g->g, i); CHECK(idx(g, i) >= 0 ? t == idx(g, i) : t < 0, "translate", "%s: process %d translates to %d, expected %d", what, i, t, idx(g, i)); }
  if (use) {
    int m = 0, want = 0; long v = 1L << ME; unsigned char b;
    for (i = 0; i < g->n; i++) want |= 1 << g->mem[i];
    armci_msg_group_lgop(&v, 1, "+", &g->g); m = (int)v;
    CHECK(m == want, "use", "%s: sum over the members is %x, expected %x", what, m, want);
    for (i = 0; i < g->n; i++) { b = ME == g->mem[i] ? 0x40 + i : 0; armci_msg_group_bcast_scope(SCOPE_ALL, &b, 1, g->mem[i], &g->g); CHECK(b == 0x40 + i, "use", "%s: broadcast from member %d", what, i); }
    armci_msg_group_barrier(&g->g);
    if (use > 1) { void *t[MAXP]; unsigned char x; CHECK(ARMCI_Malloc_group(t, 1, &g->g) == 0, "use", "%s: allocation", what); *(unsigned char *)t[k] = 0;
      armci_msg_group_barrier(&g->g); x = 0x20 + k; ARMCI_Put(&x, t[(k+1) % g->n], 1, g->mem[(k+1) % g->n]); ARMCI_Fence(g->mem[(k+1) % g->n]); armci_msg_group_barrier(&g->g);
      CHECK(*(unsigned char *)t[k] == 0x20 + (k + g->n - 1) % g->n, "use", "%s: a put between members of the group delivered %02x", what, *(unsigned char *)t[k]); ARMCI_Free_group(t[k], &g->g); }
  }
}
static void mksend(void) { int v = 4200 + ME; if (N > 1) armci_msg_snd(42, &v, sizeof v, (ME+1) % N); }
static void mkrecv(void) { int v = 0, l = 0; if (N > 1) { armci_msg_rcv(42, &v, sizeof v, &l, (ME+N-1) % N); CHECK(l == sizeof v && v == 4200 + (ME+N-1) % N, "traffic", "a user message arrived as %d (%d bytes)", v, l); } }
/* list is in ranks of the parent; via==1: ARMCI_Group_create relative to the default group */
static void create(grp_t *p, int cnt, const int *list, grp_t *out, int via)
{
  int i, l[MAXP], in = 0, par = idx(p, ME) >= 0 && p->called;
  memset(out, 0x5a, sizeof *out);
  for (i = 0; i < cnt; i++) { l[i] = list[i]; out->mem[i] = p->mem[list[i]]; in |= out->mem[i] == ME; }
  out->n = cnt; out->called = 0;
  if (!par) return;
  if (mc_get(CFG(0)) && mc_get(CFG(1)) && !in) return;
  out->called = 1;
  if (via) ARMCI_Group_create(cnt, l, &out->g); else ARMCI_Group_create_child(cnt, l, &out->g, &p->g);
  for (i = 0; i < cnt; i++) CHECK(l[i] == list[i], "list", "the list of members was changed");
}
static void release(grp_t *g) { if (g->called) ARMCI_Group_free(&g->g); g->called = 0; }
static void split(grp_t *p, const int *color, const int *key, grp_t *out)
{
  int i, j, me; memset(out, 0x5a, sizeof *out); out->called = 0; out->n = 0;
  if (!p->called || (me = idx(p, ME)) < 0) return;
  out->called = 1;
  CHECK(ARMCIX_Group_split(&p->g, color[me] < 0 ? MPI_UNDEFINED : color[me], key[me], &out->g) == 0, "split", "split returned a failure");
  if (color[me] < 0) { out->n = 0; return; }
  for (i = 0; i < p->n; i++) if (color[i] == color[me]) { int at = 0; for (j = 0; j < p->n; j++) if (color[j] == color[me] && (key[j] < key[i] || (key[j] == key[i] && j < i))) at++; out->mem[at] = p->mem[i]; out->n++; }
}
static int next_list(int *l, int *cnt, int m, int sorted)      /* next ordered subset of 0..m-1 */
{
  int i, v, used;
  for (;;) {      /* odometer over sequences without repetition: extend, else advance the last, else shorten */
    if (*cnt < m) { l[(*cnt)++] = -1; }
    for (;;) {
      if (!*cnt) return 0;
      for (v = l[*cnt-1]+1; v < m; v++) { used = 0; for (i = 0; i < *cnt-1; i++) used |= l[i] == v; if (sorted && *cnt > 1 && v < l[*cnt-2]) used = 1; if (!used) break; }
      if (v < m) { l[*cnt-1] = v; return 1; }
      --*cnt;
      if (!*cnt) return 0;
    }
  }
}
static void world(grp_t *w, int n) { int i; memset(w, 0, sizeof *w); ARMCI_Group_get_world(&w->g); for (i = 0; i < n; i++) w->mem[i] = i; w->n = n; w->called = 1; }
static int c0, h0, g0;
static void base(void) { c0 = mc_resources(MC_COMMS); h0 = mc_resources(MC_HEAP); g0 = mc_resources(MC_GROUPS); }
static void same(const char *w) { CHECK(mc_resources(MC_COMMS) == c0 && mc_resources(MC_HEAP) == h0 && mc_resources(MC_GROUPS) == g0, "resources", "%s: after freeing every group %d communicators, %d heap blocks, %d groups are held, %d, %d, %d before", w, mc_resources(MC_COMMS), mc_resources(MC_HEAP), mc_resources(MC_GROUPS), c0, h0, g0); }
void rank_group(int me, int n)
{
  grp_t w, a, b, c; int l[MAXP], l2[MAXP], cnt = 0, cnt2, sorted = (int)mc_get(CFG(0)), i, k; long tot, s; static grp_t dflt;
  int nest = mc_param("nest", 1), sp = mc_param("split", 1), keys = mc_param("keys", 3), every = mc_param("every", 1), q = 0;
  N = n; ME = me;
  mc_init();
  world(&w, n); check(&w, "world", 2);
  base();
  /* every ordered list of the world; nested: every list of the new group; freed in both orders; through the default group as well */
  while (next_list(l, &cnt, n, sorted)) {
    mc_case();
    mksend(); create(&w, cnt, l, &a, 0); mkrecv();
    check(&a, "created group", 2);
    if (nest) { cnt2 = 0; while (next_list(l2, &cnt2, cnt, sorted)) {
      if (q++ % every) continue;
      mc_case();
      create(&a, cnt2, l2, &b, 0); check(&b, "nested group", 1); check(&a, "parent", 1);
      /* the same list relative to the default group */
      if (a.called && idx(&a, me) >= 0) { ARMCI_Group d; ARMCI_Group_set_default(&a.g); ARMCI_Group_get_default(&d); dflt = a; dflt.g = d; check(&dflt, "default group", 0); create(&dflt, cnt2, l2, &c, 1); ARMCI_Group_set_default(&w.g); check(&c, "group created relative to the default group", 1); }
      else { c.called = 0; c.n = 0; }
      if (q & 1) { release(&b); check(&a, "parent of a freed group", 1); check(&c, "sibling of a freed group", 1); release(&c); }
      else { release(&c); check(&b, "sibling of a freed group", 1); release(&b); }
    } }
    if (a.called && idx(&a, me) >= 0) { memset(&b, 0x5a, sizeof b); b.called = 1; b.n = a.n; memcpy(b.mem, a.mem, sizeof b.mem); CHECK(ARMCIX_Group_dup(&a.g, &b.g) == 0, "dup", "duplication returned a failure"); check(&b, "duplicate", 1); release(&a); check(&b, "duplicate of a freed group", 2); release(&b); }
    else release(&a);
    check(&w, "world", 0);
    mc_barrier(); same("lists");
  }
  mc_barrier();
  /* every split: colours -1 (none), 0, 1 and keys 0..keys-1 for every process */
  if (sp) for (tot = 1, i = 0; i < n; i++) tot *= 3*keys;
  if (sp) for (s = 0; s < tot; s++) {
    int color[MAXP], key[MAXP]; long x = s;
    for (i = 0; i < n; i++) { color[i] = x % 3 - 1; x /= 3; key[i] = x % keys - (keys > 1); x /= keys; }
    if (q++ % every) continue;
    mc_case();
    split(&w, color, key, &a); check(&a, "split", 1);
    if (s % 7 == 0 && a.n > 1 && idx(&a, me) >= 0) { int c2[MAXP], k2[MAXP]; for (k = 0; k < a.n; k++) { c2[k] = (k + (int)s) & 1; k2[k] = -k; } split(&a, c2, k2, &b); check(&b, "split of a split", 1); release(&a); check(&b, "split of a freed group", 1); release(&b); }
    else release(&a);
    same("splits");
  }
  mc_barrier();
  mc_fini();
  mc_leakcheck("group");
}
/* noncollective creation: programs of creations in one global order, each called by the members alone, all interleavings */
void setup_group_nc(void)
{
  int c = CH("cache", 2), sync = CH("sync", 2), k = mc_param("progs", 2), n = mc_param("np", 3), i;
  if (c) mc_env("ARMCI_CACHE_RANK_TRANSLATION", "0");
  mc_env("ARMCI_NONCOLLECTIVE_GROUPS", "1");
  mc_opt("sync_send", sync);
  for (i = 0; i < k; i++) mc_set(CFG(i), 1 + CH("list", (1 << n) - 1));
  mc_label("cache %d sync %d lists %lx %lx %lx", !c, sync, (long)mc_get(CFG(0)), (long)mc_get(CFG(1)), (long)mc_get(CFG(2)));
}
void rank_group_nc(int me, int n)
{
  grp_t w, g[4]; int k = mc_param("progs", 2), i, j, l[MAXP], cnt, m;
  N = n; ME = me;
  mc_init();
  world(&w, n); base();
  mc_begin();
  for (i = 0; i < k; i++) {
    m = (int)mc_get(CFG(i)); for (cnt = j = 0; j < n; j++) if (m >> j & 1) l[cnt++] = j;
    memset(&g[i], 0x5a, sizeof g[i]); g[i].called = m >> me & 1; g[i].n = cnt; for (j = 0; j < cnt; j++) g[i].mem[j] = l[j];
    if (g[i].called) { ARMCI_Group_create_child(cnt, l, &g[i].g, &w.g); check(&g[i], "group", 0); }
  }
  mc_end();
  for (i = 0; i < k; i++) check(&g[i], "group", 1);
  for (i = 0; i < k; i++) release(&g[i]);
  same("noncollective");
  mc_fini();
  mc_leakcheck("group");
}
/* many groups alive at once: created from lists, splits and duplicates of one another, freed in an order given by the variant */
void setup_gmany(void) { setup_group(); mc_set(102, mc_choose(4)); mc_label("order %d", (int)mc_get(102)); }
#define GMANY 40
void rank_gmany(int me, int n)
{
  static grp_t g[GMANY+1]; int cnt = mc_param("cnt", 24), ord = (int)mc_get(102), i, j, k, l[MAXP], m, p, live[GMANY+1], nl, round;
  N = n; ME = me;
  mc_init();
  world(&g[0], n); base();
  for (round = 0; round < 2; round++) {
    for (i = 1; i <= cnt; i++) {
      mc_case();
      p = i < 4 ? 0 : (i*5 + round) % 4;                    /* parent: the world or one of the first groups */
      if (i % 3 == 0 && g[p].n > 1) { int c[MAXP], ke[MAXP]; for (k = 0; k < MAXP; k++) { c[k] = (k >> (i & 1)) & 1; ke[k] = i & 2 ? -k : k; } split(&g[p], c, ke, &g[i]); }
      else {
        m = i % g[p].n + 1; for (k = 0; k < m; k++) l[k] = mc_get(CFG(0)) ? k : (k*1 + i) % g[p].n;
        if (mc_get(CFG(0))) { create(&g[p], m, l, &g[i], 0); }
        else create(&g[p], m, l, &g[i], 0);
      }
      for (j = 0; j <= i; j++) check(&g[j], "one of many groups", j == i ? 2 : j % 5 == 0);
    }
    for (nl = 0, i = 1; i <= cnt; i++) live[nl++] = i;
    for (i = 0; nl; i++) {
      switch (ord) { case 0: k = 0; break; case 1: k = nl-1; break; case 2: k = nl/2; break; default: k = (i*7 + 3) % nl; }
      mc_case(); release(&g[live[k]]); for (j = k; j < nl-1; j++) live[j] = live[j+1]; nl--;
      for (j = 0; j < nl; j++) check(&g[live[j]], "one of many groups", (i + j) % 4 == 0);
      check(&g[0], "world", i % 6 == 0);
    }
    mc_barrier(); same("many");
  }
  mc_fini();
  mc_leakcheck("gmany");
}
