/* Helpers shared by the scenarios. */
#ifndef MC_COMMON_H
#define MC_COMMON_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <mpi.h>
#include <armci.h>
#include <armcix.h>
#include "mc.h"
#define LAY(k) ((k) ? (k) : 3)      /* layout 3: as layout 0 (same addresses on all processes), with adjacent allocations */
#define MAXP 8
#define CHECK(c,key,...) do { if (!(c)) mc_fail(key, __VA_ARGS__); } while (0)
/* How the library is brought up.
   world=1: the library runs on a communicator the application made (option world_rev: the ranks of MPI_COMM_WORLD run the other way;
            option extra: one process of MPI_COMM_WORLD does not take part in ARMCI at all)
   dflt=1..2: the application has set a default group (1: all processes in reverse order, 2: each process on its own). */
static MPI_Comm mc_ucomm; static ARMCI_Group mc_dgrp;
__attribute__((weak)) void mc_outsider(void)
{
  int prov; MPI_Comm c;
  if (mc_param("thread", 0)) MPI_Init_thread(NULL, NULL, MPI_THREAD_MULTIPLE, &prov); else MPI_Init(NULL, NULL);
  MPI_Comm_split(MPI_COMM_WORLD, MPI_UNDEFINED, 0, &c);
  MPI_Finalize();
}
static inline void mc_init(void)
{
  int rc, prov, thr = mc_param("thread", 0), i, n = mc_size(), l[MAXP];
  if (thr) MPI_Init_thread(NULL, NULL, MPI_THREAD_MULTIPLE, &prov); else MPI_Init(NULL, NULL);
  if (mc_param("world", 0)) {
    MPI_Comm_split(MPI_COMM_WORLD, 1, mc_rank(), &mc_ucomm);
    rc = thr ? ARMCI_Init_thread_comm(MPI_THREAD_MULTIPLE, mc_ucomm) : ARMCI_Init_mpi_comm(mc_ucomm);
  }
  else rc = thr ? ARMCI_Init_thread(MPI_THREAD_MULTIPLE) : ARMCI_Init();
  CHECK(rc == 0, "init", "ARMCI_Init returned %d", rc);
  if (mc_param("dflt", 0)) {
    if (mc_param("dflt", 0) == 1) { for (i = 0; i < n; i++) l[i] = n-1-i; ARMCI_Group_create(n, l, &mc_dgrp); }
    else { l[0] = mc_rank(); ARMCI_Group_create(1, l, &mc_dgrp); }
    ARMCI_Group_set_default(&mc_dgrp);
  }
}
/* a group given by absolute ids in the order listed, whatever the default group is */
static inline void mc_group(int cnt, int *list, ARMCI_Group *g)
{
  ARMCI_Group w;
  if (!mc_param("dflt", 0)) { ARMCI_Group_create(cnt, list, g); return; }
  ARMCI_Group_get_world(&w); ARMCI_Group_create_child(cnt, list, g, &w);
}
static inline void mc_fini(void)
{
  int rc;
  if (mc_param("dflt", 0)) { ARMCI_Group w; ARMCI_Group_get_world(&w); ARMCI_Group_set_default(&w); ARMCI_Group_free(&mc_dgrp); }
  rc = ARMCI_Finalize();
  CHECK(rc == 0, "finalize", "ARMCI_Finalize returned %d", rc);
  if (mc_param("world", 0)) MPI_Comm_free(&mc_ucomm);
  MPI_Finalize();
  mc_leakcheck("resources");
}
/* collective allocation; fails the property when the call does not succeed */
static inline void mc_alloc(void **t, size_t n)
{
  int rc = ARMCI_Malloc(t, n);
  CHECK(rc == 0, "malloc", "ARMCI_Malloc(%zu) returned %d", n, rc);
}
/* a byte pattern that makes every (rank, allocation, offset) distinguishable and differs from zero/poison */
static inline unsigned char mc_pat(int rank, int alloc, int off) { return (unsigned char)(0x11 + 0x1f*rank + 0x35*alloc + 7*off + (off >> 4)*3); }
static inline void mc_fill(void *p, int n, int rank, int alloc) { unsigned char *c = p; for (int i = 0; i < n; i++) c[i] = mc_pat(rank, alloc, i); }
#endif
