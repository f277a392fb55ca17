/* C13: global reductions. */
#include "common.h"
#define CH(name, k) (mc_param(name, -1) >= 0 ? mc_param(name, -1) : mc_choose(k))
#define CFG(i) (100+(i))
void setup_gop(void)
{
  int o = CH("order", 4), s = CH("seg", 4), shr = CH("shr", 2), lay = CH("layout", 2), g = CH("grp", 5), cache = CH("cache", 2);
  mc_opt("red_order", o); mc_opt("red_seg", s); mc_opt("layout", lay);
  if (shr) mc_env("ARMCI_SHR_BUF_METHOD", "COPY");
  if (cache) mc_env("ARMCI_CACHE_RANK_TRANSLATION", "0");
  mc_set(CFG(0), g);
  mc_label("association %d segmentation %d copy %d layout %d group %d", o, s, shr, lay, g);
}
static const char *ops[] = {"+", "*", "max", "min", "absmax", "absmin", "or", "land", "&&", "lor", "||", "band", "&", "bor", "|"};
#define NOPS 15
static const int types[] = {ARMCI_INT, ARMCI_LONG, ARMCI_LONG_LONG, ARMCI_FLOAT, ARMCI_DOUBLE};
static const char *tn[] = {"int", "long", "long long", "float", "double"};
static const int sz[] = {4, 8, 8, 4, 8};
typedef long double V;
/* input of process r for element i; pattern p */
static long long in_i(int r, int i, int p, int ty, int op)
{
  static const long long s[] = {0, 1, -1, 5, -7, 12, -12, 2, 3, 0x55, 0, 0};
  long long v = s[(r*5 + i*3 + p*7) % 12], big = ty == 0 ? 0x7fffff00LL : 0x7fffffffffffff00LL;
  if (op == 1) return (v % 4);
  if (p == 1) v = (op >= 2 && op <= 5) ? (((r + i) % 3) - 1) * (big + ((r*3+i) % 7)) : (((r+i) % 3) - 1) * (big/8) + r*3 + i;
  if (p == 2 && op >= 7 && op <= 10) v = (i % 3 == 0) ? (1 << (r % 5)) : (i % 3 == 1) ? 0 : (r == i % 4 ? 4 : 0);
  if (p == 2 && op == 6) v = 1LL << ((r*7 + i) % (ty == 0 ? 31 : 63));
  if (p == 2 && op > 10) v = ~(1LL << ((r*7 + i) % (ty == 0 ? 31 : 63)));
  if (ty == 0) v = (int)v;
  return v;
}
static double in_f(int r, int i, int p, int ty, int op)
{
  static const double s[] = {0, 1.5, -1.25, 5, -7, 12, -12, 0.5, 3, 0.0625, -0.5, 2};
  double v = s[(r*5 + i*3 + p*7) % 12];
  if (op == 1) return s[(r + i + p) % 4] == 0 ? 1 : s[(r + i + p) % 4] > 2 ? 2 : s[(r+i+p) % 4];
  if (p == 1 && op >= 2 && op <= 5) v = ((r + i) % 3 - 1) * (ty == 3 ? 3e38 - r*1e37 : 1.7e308 - r*1e307);
  if (p == 1 && op == 0) v *= 1024;
  if (p == 2 && op >= 2) v = v / (ty == 3 ? 1e35 : 1e300);
  return ty == 3 ? (float)v : v;
}
static long long comb_i(int op, long long a, long long b, int ty)
{
  unsigned long long u = 0;
  switch (op) {
    case 0: u = (unsigned long long)a + (unsigned long long)b; break;
    case 1: u = (unsigned long long)a * (unsigned long long)b; break;
    case 2: return a > b ? a : b;
    case 3: return a < b ? a : b;
    case 4: a = a < 0 ? -a : a; b = b < 0 ? -b : b; return a > b ? a : b;
    case 5: a = a < 0 ? -a : a; b = b < 0 ? -b : b; return a < b ? a : b;
    case 6: case 13: case 14: return a | b;
    case 7: case 8: return a && b;
    case 9: case 10: return a || b;
    default: return a & b;
  }
  return ty == 0 ? (long long)(int)u : (long long)u;
}
static double comb_f(int op, double a, double b)
{
  switch (op) {
    case 0: return a + b; case 1: return a * b; case 2: return a > b ? a : b; case 3: return a < b ? a : b;
    case 4: a = a < 0 ? -a : a; b = b < 0 ? -b : b; return a > b ? a : b;
    default: a = a < 0 ? -a : a; b = b < 0 ? -b : b; return a < b ? a : b;
  }
}
static long long ld_i(void *p, int ty) { if (ty == 0) { int v; memcpy(&v, p, 4); return v; } long long v; memcpy(&v, p, 8); return v; }
static double ld_f(void *p, int ty) { if (ty == 3) { float v; memcpy(&v, p, 4); return v; } double v; memcpy(&v, p, 8); return v; }
static void st_i(void *p, int ty, long long v) { if (ty == 0) { int w = (int)v; memcpy(p, &w, 4); } else memcpy(p, &v, 8); }
static void st_f(void *p, int ty, double v) { if (ty == 3) { float w = (float)v; memcpy(p, &w, 4); } else memcpy(p, &v, 8); }
#define GB 1024
static void call(int api, int scope, void *x, int n, char *op, int ty, ARMCI_Group *g)
{
  if (api == 0) armci_msg_group_gop_scope(scope, x, n, op, types[ty], g);
  else if (api == 1) armci_msg_gop_scope(scope, x, n, op, types[ty]);
  else if (api == 2) switch (ty) {
    case 0: armci_msg_group_igop(x, n, op, g); break; case 1: armci_msg_group_lgop(x, n, op, g); break; case 2: armci_msg_group_llgop(x, n, op, g); break;
    case 3: armci_msg_group_fgop(x, n, op, g); break; default: armci_msg_group_dgop(x, n, op, g); }
  else switch (ty) {
    case 0: armci_msg_igop(x, n, op); break; case 1: armci_msg_lgop(x, n, op); break; case 2: armci_msg_llgop(x, n, op); break;
    case 3: armci_msg_fgop(x, n, op); break; default: armci_msg_dgop(x, n, op); }
}
void rank_gop(int me, int n)
{
  void *T[MAXP]; ARMCI_Group g; int gk = (int)mc_get(CFG(0)), mem[MAXP], nm = 0, i, r, op, ty, k, p, scope, buf, api, member = 0, every = mc_param("every", 1), cnt = 0;
  static const int ns[] = {1, 2, 3, 7, 0, 33}; static const int scopes[] = {SCOPE_ALL, SCOPE_MASTERS, SCOPE_NODE};
  mc_init();
  mc_alloc(T, GB);
  /* 0 world, 1 everyone reversed, 2 all but the first, 3 the last one alone, 4 singletons obtained by splitting */
  if (gk == 0) { ARMCI_Group_get_world(&g); for (i = 0; i < n; i++) mem[nm++] = i; }
  else if (gk == 1) { for (i = 0; i < n; i++) mem[nm++] = n-1-i; mc_group(nm, mem, &g); }
  else if (gk == 2) { if (n == 1) mc_skip(); for (i = 1; i < n; i++) mem[nm++] = i; mc_group(nm, mem, &g); }
  else if (gk == 3) { mem[nm++] = n-1; mc_group(nm, mem, &g); }
  else { ARMCI_Group w; ARMCI_Group_get_world(&w); mem[nm++] = me; ARMCIX_Group_split(&w, me, 0, &g); }
  for (i = 0; i < nm; i++) member |= mem[i] == me;
  if (member) for (api = 0; api < 4; api++) for (scope = 0; scope < 3; scope++) for (op = 0; op < NOPS; op++) for (ty = 0; ty < 5; ty++) for (k = 0; k < 6; k++) for (p = 0; p < 3; p++) for (buf = 0; buf < 3; buf++) {
    int cn = ns[k], bytes = cn*sz[ty], off = buf == 1 ? 0 : 128; unsigned char *x, ref[GB], *priv = NULL;
    if (op >= 6 && ty >= 3) continue;
    if ((api & 1) && gk) continue;
    if (api >= 2 && scope) continue;
    if (cnt++ % every) continue;
    mc_case();
    for (i = 0; i < GB; i++) ref[i] = (unsigned char)(0x80 | (i*7 + k));
    if (buf == 0) x = priv = malloc(bytes+16); else { x = (unsigned char *)T[me] + off; }
    for (i = 0; i < cn; i++) { void *q = ref + off + i*sz[ty]; if (ty < 3) st_i(q, ty, in_i(me, i, p, ty, op)); else st_f(q, ty, in_f(me, i, p, ty, op)); }
    if (buf == 0) memcpy(x, ref + off, bytes+16); else memcpy(T[me], ref, GB);
    call(api, scopes[scope], x, cn, (char *)ops[op], ty, &g);
    for (i = 0; i < cn; i++) {
      void *q = ref + off + i*sz[ty]; int first = 1; long long a = 0; double f = 0;
      for (r = 0; r < nm; r++) {
        if (scope == 2 && mem[r] != me) continue;      /* every process is a node of its own */
        if (ty < 3) { long long v = in_i(mem[r], i, p, ty, op); a = first ? (op == 4 || op == 5 ? comb_i(op, v, v, ty) : v) : comb_i(op, a, v, ty); }
        else { double v = in_f(mem[r], i, p, ty, op); f = first ? (op == 4 || op == 5 ? comb_f(op, v, v) : v) : comb_f(op, f, v); if (ty == 3) f = (float)f; }
        first = 0;
      }
      /* a logical operation on one process may leave the operand itself: any true value */
      if (op >= 7 && op <= 10 && (scope == 2 || nm == 1)) { CHECK(!ld_i(x+i*sz[ty], ty) == !a, "value", "'%s' of %d %s, scope %d: element %d is %lld, expected the truth value of %lld", ops[op], cn, tn[ty], scope, i, ld_i(x+i*sz[ty], ty), a); memcpy(q, x+i*sz[ty], sz[ty]); continue; }
      if (ty < 3) { CHECK(ld_i(x+i*sz[ty], ty) == a, "value", "'%s' of %d %s, scope %d, api %d: element %d of rank %d is %lld, expected %lld", ops[op], cn, tn[ty], scope, api, i, me, ld_i(x+i*sz[ty], ty), a); }
      else CHECK(ld_f(x+i*sz[ty], ty) == f, "value", "'%s' of %d %s, scope %d, api %d: element %d of rank %d is %g, expected %g", ops[op], cn, tn[ty], scope, api, i, me, ld_f(x+i*sz[ty], ty), f);
      memcpy(q, x+i*sz[ty], sz[ty]);
    }
    if (buf == 0) { CHECK(!memcmp(priv, ref + off, bytes+16), "outside", "'%s' of %d %s: memory behind the buffer changed", ops[op], cn, tn[ty]); free(priv); }
    else CHECK(!memcmp(T[me], ref, GB), "outside", "'%s' of %d %s: memory outside of the buffer changed", ops[op], cn, tn[ty]);
  }
  if (gk) ARMCI_Group_free(&g);
  ARMCI_Free(T[me]);
  mc_fini();
  mc_leakcheck("gop");
}
