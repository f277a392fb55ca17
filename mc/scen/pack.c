/* C26: armci_write_strided / armci_read_strided against the element-by-element reference; setup_pack chooses nothing, the loops enumerate. */
#include "common.h"
void armci_write_strided(void *ptr, int stride_levels, int stride_arr[], int count[], char *buf);
void armci_read_strided(void *ptr, int stride_levels, int stride_arr[], int count[], char *buf);
#define AREA 6000
static void one(int lv, int *cnt, int *st, int base)
{
  long span = cnt[0], tot = cnt[0], i, k; int idx[10] = {0}, j, c2[10], s2[10]; char what[200]; int l;
  for (j = 0; j < lv; j++) { span += (long)st[j]*(cnt[j+1]-1); tot *= cnt[j+1]; }
  if (span + base + 8 > AREA || tot + 16 > AREA) return;
  mc_case();
  static unsigned char in_use[AREA]; memset(in_use, 0, sizeof in_use);
  unsigned char *a = malloc(AREA), *ref = malloc(AREA), *buf = malloc(tot+16), *a0 = malloc(AREA);
  for (i = 0; i < AREA; i++) a[i] = a0[i] = (unsigned char)(i*7 + (i>>8)*13 + 1);
  memset(buf, 0xEE, tot+16); memset(ref, 0xEE, AREA);
  for (k = 0;;) {
    long o = base; for (j = 0; j < lv; j++) o += (long)st[j]*idx[j];
    for (i = 0; i < cnt[0]; i++) { ref[8+k++] = a0[o+i]; in_use[o+i] = 1; }
    for (j = 0; j < lv; j++) { if (++idx[j] < cnt[j+1]) break; idx[j] = 0; }
    if (j == lv) break;
  }
  l = snprintf(what, sizeof what, "counts"); for (j = 0; j <= lv; j++) l += snprintf(what+l, sizeof what-l, " %d", cnt[j]);
  l += snprintf(what+l, sizeof what-l, " strides"); for (j = 0; j < lv; j++) l += snprintf(what+l, sizeof what-l, " %d", st[j]);
  if (mc_tracing()) fprintf(stderr, "case: %s\n", what);
  memcpy(c2, cnt, sizeof(int)*(lv+1)); memcpy(s2, st, sizeof(int)*lv);
  armci_write_strided(a+base, lv, st, cnt, (char *)buf+8);
  CHECK(!memcmp(a, a0, AREA), "pack-source", "packing changed its source, %s", what);
  for (i = 0; i < tot+16; i++) CHECK(buf[i] == ref[i], "pack", "byte %ld of the packed buffer (%ld bytes) is %02x, expected %02x, %s", i-8, tot, buf[i], ref[i], what);
  memset(a, 0x5C, AREA);
  armci_read_strided(a+base, lv, st, cnt, (char *)buf+8);
  for (i = 0; i < tot+16; i++) CHECK(buf[i] == ref[i], "unpack-source", "unpacking changed byte %ld of the packed buffer, %s", i-8, what);
  for (i = 0; i < AREA; i++) CHECK(a[i] == (in_use[i] ? a0[i] : 0x5C), "unpack", "byte %ld of the unpacked block is %02x, expected %02x, %s", i-base, a[i], in_use[i] ? a0[i] : 0x5C, what);
  CHECK(!memcmp(c2, cnt, sizeof(int)*(lv+1)) && !memcmp(s2, st, sizeof(int)*lv), "args", "packing changed its argument arrays, %s", what);
  free(a); free(ref); free(buf); free(a0);
}
void rank_pack(int me, int n)
{
  int lv, i, c, s, cmax = mc_param("cmax", 3), maxlv = mc_param("maxlv", 4); static const int c0[] = {1, 2, 3, 8, 13, 64};
  mc_init();
  for (lv = 0; lv <= maxlv; lv++) {
    int nc = 6, ns = 1; for (i = 0; i < lv; i++) { nc *= cmax; ns *= 4; }
    for (c = 0; c < nc; c++) for (s = 0; s < ns + (lv > 1 ? 2 : 0); s++) {
      int cnt[10], st[10], q = c/6, k = s; long m;
      cnt[0] = c0[c % 6]; for (i = 0; i < lv; i++) { cnt[i+1] = 1 + q % cmax; q /= cmax; }
      if (s >= ns) { int p = cnt[0]; for (i = lv-1; i >= 0; i--) { st[i] = p + (s-ns); p = st[i]*cnt[i+1]; } }     /* outermost dimension fastest */
      else for (m = cnt[0], i = 0; i < lv; i++) { st[i] = (int)(k % 4 == 0 ? m : k % 4 == 1 ? m+1 : k % 4 == 2 ? m+cnt[0]*2+3 : 2*m); k /= 4; m = (long)st[i]*cnt[i+1]; }
      one(lv, cnt, st, (c+s) % 3);
    }
  }
  for (lv = 5; lv <= 7; lv++) for (c = 0; c < (2 << lv); c++) for (s = 0; s < 4; s++) {
    int cnt[10], st[10]; long m; cnt[0] = c & 1 ? 3 : 1; for (i = 0; i < lv; i++) cnt[i+1] = 1 + ((c >> (i+1)) & 1);
    for (m = cnt[0], i = 0; i < lv; i++) { st[i] = (int)(m + (s == 1 ? i & 1 : s == 2 ? 2 : s == 3 && i == 2 ? 5 : 0)); m = (long)st[i]*cnt[i+1]; }
    one(lv, cnt, st, c % 3);
  }
  mc_fini();
}
