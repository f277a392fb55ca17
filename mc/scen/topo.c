/* C25: topology queries as one partition, compared between all processes. */
#include "common.h"
#include <message.h>
void setup_topo(void) { mc_opt("layout", mc_choose(3)); }
void rank_topo(int me, int n)
{
  int i, j, r;
  mc_init();
  CHECK(armci_msg_me() == me && armci_msg_nproc() == n, "ids", "process %d of %d, expected %d of %d", armci_msg_me(), armci_msg_nproc(), me, n);
  ARMCI_Group w; ARMCI_Group_get_world(&w); ARMCI_Group_rank(&w, &r); CHECK(r == me, "ids", "world group rank %d, expected %d", r, me); ARMCI_Group_size(&w, &r); CHECK(r == n, "ids", "world group size %d", r);
  for (i = 0; i < n; i++) CHECK(ARMCI_Absolute_id(&w, i) == i, "ids", "absolute id of %d is %d", i, ARMCI_Absolute_id(&w, i));
  int dc = armci_domain_count(ARMCI_DOMAIN_SMP), my = armci_domain_my_id(ARMCI_DOMAIN_SMP), tot = 0, seen[MAXP] = {0};
  CHECK(dc >= 1 && dc <= n, "domains", "%d domains for %d processes", dc, n);
  for (i = 0; i < dc; i++) {
    int sz = armci_domain_nprocs(ARMCI_DOMAIN_SMP, i); CHECK(sz >= 1, "domains", "domain %d has %d processes", i, sz);
    tot += sz;
    for (j = 0; j < sz; j++) {
      int g = armci_domain_glob_proc_id(ARMCI_DOMAIN_SMP, i, j);
      CHECK(g >= 0 && g < n && !seen[g], "domains", "process %d of domain %d is %d", j, i, g);
      seen[g] = 1;
      CHECK(armci_domain_id(ARMCI_DOMAIN_SMP, g) == i, "domains", "process %d is in domain %d, expected %d", g, armci_domain_id(ARMCI_DOMAIN_SMP, g), i);
      CHECK(!!armci_domain_same_id(ARMCI_DOMAIN_SMP, g) == (i == my), "domains", "same-domain query of %d from %d", g, me);
      CHECK(!ARMCI_Same_node(g) || i == my, "domains", "same-node query of %d from %d is true across domains", g, me);
      if (g == me) CHECK(i == my, "domains", "process %d is in domain %d, but its own domain is %d", me, i, my);
    }
  }
  CHECK(tot == n, "domains", "%d processes in the domains, expected %d", tot, n);
  CHECK(armci_domain_nprocs(ARMCI_DOMAIN_SMP, -1) == armci_domain_nprocs(ARMCI_DOMAIN_SMP, my), "domains", "size of my domain");
  CHECK(ARMCI_Same_node(me), "domains", "a process is not on its own node");
  /* same-node is symmetric and agrees between processes; the partition is the same everywhere */
  for (i = 0; i < n; i++) mc_set(8*me + i, 1 + armci_domain_id(ARMCI_DOMAIN_SMP, i) + 100*!!ARMCI_Same_node(i) + 10000*dc);
  mc_barrier();
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) {
    CHECK(mc_get(8*i+j) % 100 == mc_get(8*me+j) % 100 && mc_get(8*i+j)/10000 == dc, "agree", "processes %d and %d disagree about the domain of %d", i, me, j);
    CHECK((mc_get(8*i+j)/100 % 100) == (mc_get(8*j+i)/100 % 100), "agree", "same-node is not symmetric for %d and %d", i, j);
  }
  mc_fini();
}
