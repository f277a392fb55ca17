/* Configuration choices shared by the scenarios: a parameter fixes a setting, otherwise the explorer enumerates it. */
#ifndef CFG_H
#define CFG_H
#include "common.h"
#define CH(name, k) (mc_param(name, -1) >= 0 ? mc_param(name, -1) : mc_choose(k))
static int cfg_layout, cfg_del, cfg_shr, cfg_atom, cfg_e2e, cfg_wa, cfg_sm, cfg_im, cfg_lim, cfg_chunk, cfg_checks, cfg_ra;
static const char *cfg_iovm[] = {"CONSRV", "BATCHED", "DIRECT", "AUTO"};
static void env_int(const char *n, int v) { char b[16]; snprintf(b, sizeof b, "%d", v); mc_env(n, b); }
static void cfg_base(void)
{
  cfg_del = CH("del", 3); mc_opt("deliver", cfg_del);
  cfg_layout = CH("layout", 3); mc_opt("layout", LAY(cfg_layout));
  cfg_shr = CH("shr", 2); mc_env("ARMCI_SHR_BUF_METHOD", cfg_shr ? "COPY" : "NOGUARD");
  cfg_atom = CH("atom", 2); mc_env("ARMCI_RMA_ATOMICITY", cfg_atom ? "1" : "0");
  cfg_e2e = CH("e2e", 2); mc_env("ARMCI_NO_FLUSH_LOCAL", cfg_e2e ? "1" : "0");
  cfg_wa = CH("wc", 2); mc_env("ARMCI_USE_WIN_ALLOCATE", cfg_wa ? "0" : "1");
}
static void cfg_iovset(int im, int lim, int chunk, int checks)
{
  cfg_im = im; cfg_lim = lim; cfg_chunk = chunk; cfg_checks = checks;
  mc_env("ARMCI_IOV_METHOD", cfg_iovm[im]);
  if (lim) env_int("ARMCI_IOV_BATCHED_LIMIT", lim);
  if (chunk) env_int("ARMCI_IOV_DTYPE_CHUNK", chunk);
  if (checks) mc_env("ARMCI_IOV_CHECKS", "1");
}
static void cfg_iovpart(void)
{
  int im = CH("im", 4), lim = im == 1 ? CH("lim", 3) : 0, chunk = im >= 2 ? CH("chunk", 3) : 0;
  cfg_iovset(im, lim, chunk == 2 ? 3 : chunk, CH("checks", 2));
}
static void cfg_iov(void)
{
  cfg_base(); cfg_iovpart();
  mc_label("iov %s limit %d chunk %d checks %d delivery %d layout %d copy %d atomic %d e2e %d win_create %d", cfg_iovm[cfg_im], cfg_lim, cfg_chunk, cfg_checks, cfg_del, cfg_layout, cfg_shr, cfg_atom, cfg_e2e, cfg_wa);
}
#endif
