#!/usr/bin/env python3
"""Generates stubs_gen.inc: one MPI_* entry point per line of the table, each forwarding to the simulator."""
T = """
int MPI_Comm_rank(C_RANK) c,p
int MPI_Comm_size(C_SIZE) c,p
int MPI_Comm_remote_size(C_RSIZE) c,p
int MPI_Comm_test_inter(C_TESTINTER) c,p
int MPI_Comm_dup(C_DUP) c,p
int MPI_Comm_split(C_SPLIT) c,i,i,p
int MPI_Comm_create(C_CREATE) c,c,p
int MPI_Comm_create_group(C_CREATEGRP) c,c,i,p
int MPI_Comm_free(C_FREE) p
int MPI_Comm_group(C_GROUP) c,p
int MPI_Comm_compare(C_CMP) c,c,p
int MPI_Comm_get_attr(C_ATTR) c,i,p,p
int MPI_Intercomm_create(IC_CREATE) c,i,c,i,i,p
int MPI_Intercomm_merge(IC_MERGE) c,i,p
int MPI_Group_incl(G_INCL) c,i,P,p
int MPI_Group_excl(G_EXCL) c,i,P,p
int MPI_Group_free(G_FREE) p
int MPI_Group_translate_ranks(G_TRANS) c,i,P,c,p
int MPI_Group_size(G_SIZE) c,p
int MPI_Group_rank(G_RANK) c,p
int MPI_Group_compare(G_CMP) c,c,p
int MPI_Group_union(G_UNION) c,c,p
int MPI_Group_intersection(G_INTER) c,c,p
int MPI_Group_difference(G_DIFF) c,c,p
int MPI_Send(SEND) P,i,c,i,i,c
int MPI_Rsend(SEND) P,i,c,i,i,c
int MPI_Bsend(SEND) P,i,c,i,i,c
int MPI_Ssend(SSEND) P,i,c,i,i,c
int MPI_Isend(ISEND) P,i,c,i,i,c,p
int MPI_Issend(ISEND) P,i,c,i,i,c,p
int MPI_Irecv(IRECV) p,i,c,i,i,c,p
int MPI_Recv(RECV) p,i,c,i,i,c,p
int MPI_Probe(PROBE) i,i,c,p
int MPI_Iprobe(IPROBE) i,i,c,p,p
int MPI_Wait(WAIT) p,p
int MPI_Test(TEST) p,p,p
int MPI_Waitall(WAITALL) i,p,p
int MPI_Testall(TESTALL) i,p,p,p
int MPI_Waitany(WAITANY) i,p,p,p
int MPI_Testany(TESTANY) i,p,p,p,p
int MPI_Waitsome(WAITSOME) i,p,p,p,p
int MPI_Request_free(REQFREE) p
int MPI_Request_get_status(REQSTATUS) c,p,p
int MPI_Barrier(BARRIER) c
int MPI_Ibarrier(IBARRIER) c,p
int MPI_Bcast(BCAST) p,i,c,i,c
int MPI_Reduce(REDUCE) P,p,i,c,c,i,c
int MPI_Allreduce(ALLREDUCE) P,p,i,c,c,c
int MPI_Allgather(ALLGATHER) P,i,c,p,i,c,c
int MPI_Allgatherv(ALLGATHERV) P,i,c,p,P,P,c,c
int MPI_Gather(GATHER) P,i,c,p,i,c,i,c
int MPI_Scatter(SCATTER) P,i,c,p,i,c,i,c
int MPI_Alltoall(ALLTOALL) P,i,c,p,i,c,c
int MPI_Scan(SCAN) P,p,i,c,c,c
int MPI_Exscan(EXSCAN) P,p,i,c,c,c
int MPI_Reduce_scatter_block(REDSCATB) P,p,i,c,c,c
int MPI_Reduce_local(REDLOCAL) P,p,i,c,c
int MPI_Op_create(OP_CREATE) f,i,p
int MPI_Op_free(OP_FREE) p
int MPI_Op_commutative(OP_COMM) c,p
int MPI_Info_create(I_CREATE) p
int MPI_Info_set(I_SET) c,s,s
int MPI_Info_free(I_FREE) p
int MPI_Info_get(I_GET) c,s,i,p,p
int MPI_Info_dup(I_DUP) c,p
int MPI_Alloc_mem(ALLOC) l,c,p
int MPI_Free_mem(FREEMEM) p
int MPI_Type_contiguous(T_CONTIG) i,c,p
int MPI_Type_vector(T_VECTOR) i,i,i,c,p
int MPI_Type_create_hvector(T_HVECTOR) i,i,l,c,p
int MPI_Type_indexed(T_INDEXED) i,P,P,c,p
int MPI_Type_create_hindexed(T_HINDEXED) i,P,P,c,p
int MPI_Type_create_indexed_block(T_IBLOCK) i,i,P,c,p
int MPI_Type_create_hindexed_block(T_HIBLOCK) i,i,P,c,p
int MPI_Type_create_struct(T_STRUCT) i,P,P,P,p
int MPI_Type_create_subarray(T_SUBARRAY) i,P,P,P,i,c,p
int MPI_Type_create_resized(T_RESIZED) c,l,l,p
int MPI_Type_dup(T_DUP) c,p
int MPI_Type_commit(T_COMMIT) p
int MPI_Type_free(T_FREE) p
int MPI_Type_size(T_SIZE) c,p
int MPI_Type_get_extent(T_EXTENT) c,p,p
int MPI_Type_get_true_extent(T_TEXTENT) c,p,p
int MPI_Pack(PACK) P,i,c,p,i,p,c
int MPI_Unpack(UNPACK) P,i,p,p,i,c,c
int MPI_Win_create(W_CREATE) p,l,i,c,c,p
int MPI_Win_allocate(W_ALLOCATE) l,i,c,c,p,p
int MPI_Win_free(W_FREE) p
int MPI_Win_lock(W_LOCK) i,i,i,c
int MPI_Win_unlock(W_UNLOCK) i,c
int MPI_Win_lock_all(W_LOCKALL) i,c
int MPI_Win_unlock_all(W_UNLOCKALL) c
int MPI_Win_flush(W_FLUSH) i,c
int MPI_Win_flush_all(W_FLUSHALL) c
int MPI_Win_flush_local(W_FLUSHL) i,c
int MPI_Win_flush_local_all(W_FLUSHLALL) c
int MPI_Win_sync(W_SYNC) c
int MPI_Win_fence(W_FENCE) i,c
int MPI_Win_get_attr(W_ATTR) c,i,p,p
int MPI_Win_get_group(W_GROUP) c,p
int MPI_Put(PUT) P,i,c,i,l,i,c,c
int MPI_Get(GET) p,i,c,i,l,i,c,c
int MPI_Accumulate(ACC) P,i,c,i,l,i,c,c,c
int MPI_Get_accumulate(GACC) P,i,c,p,i,c,i,l,i,c,c,c
int MPI_Fetch_and_op(FOP) P,p,c,i,l,c,c
int MPI_Compare_and_swap(CAS) P,P,p,c,i,l,c
int MPI_Rput(RPUT) P,i,c,i,l,i,c,c,p
int MPI_Rget(RGET) p,i,c,i,l,i,c,c,p
int MPI_Raccumulate(RACC) P,i,c,i,l,i,c,c,c,p
int MPI_Rget_accumulate(RGACC) P,i,c,p,i,c,i,l,i,c,c,c,p
int MPI_Init_thread(INIT) p,p,i,p
int MPI_Finalize(FINALIZE)
int MPI_Initialized(INITIALIZED) p
int MPI_Finalized(FINALIZED) p
int MPI_Query_thread(QTHREAD) p
int MPI_Abort(ABORT) c,i
"""
import re
spec = dict(c="int", i="int", l="MPI_Aint", s="const char*", f="MPI_User_function*")
proto = {}
for m in re.finditer(r"(?:int|double|MPI_Aint) (MPI_\w+)\(([^;]*)\);", open(__file__.replace("gen_stubs.py","inc/mpi.h")).read()):
    proto[m.group(1)] = m.group(2)
for line in T.strip().splitlines():
    m = re.match(r"int (MPI_\w+)\((\w+)\) ?(.*)$", line)
    name, op, args = m.group(1), m.group(2), [a for a in m.group(3).split(",") if a]
    params = [p.strip() for p in proto[name].split(",")] if proto[name] != "void" else []
    assert len(params) == len(args), (name, params, args)
    ps, cs = [], []
    for k, p in enumerate(params):
        ps.append(f"{p} a{k}")
        cs.append(f"U(a{k})")
    print(f'int {name}({", ".join(ps) or "void"}) {{ return (int)docall(O_{op}, {{{", ".join(cs)}}}); }}')
