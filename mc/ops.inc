X(INIT) X(FINALIZE) X(INITIALIZED) X(FINALIZED) X(QTHREAD) X(ABORT) X(WTIME)
X(C_RANK) X(C_SIZE) X(C_RSIZE) X(C_TESTINTER) X(C_DUP) X(C_SPLIT) X(C_CREATE) X(C_CREATEGRP) X(C_FREE) X(C_GROUP) X(C_CMP) X(C_ATTR) X(IC_CREATE) X(IC_MERGE)
X(G_INCL) X(G_EXCL) X(G_FREE) X(G_TRANS) X(G_SIZE) X(G_RANK) X(G_CMP) X(G_UNION) X(G_INTER) X(G_DIFF)
X(SEND) X(SSEND) X(ISEND) X(IRECV) X(RECV) X(PROBE) X(IPROBE)
X(WAIT) X(TEST) X(WAITALL) X(TESTALL) X(WAITANY) X(TESTANY) X(WAITSOME) X(REQFREE) X(REQSTATUS)
X(BARRIER) X(BCAST) X(REDUCE) X(ALLREDUCE) X(ALLGATHER) X(ALLGATHERV) X(GATHER) X(SCATTER) X(ALLTOALL) X(SCAN) X(EXSCAN) X(REDSCATB) X(REDLOCAL) X(IBARRIER)
X(OP_CREATE) X(OP_FREE) X(OP_COMM)
X(I_CREATE) X(I_SET) X(I_FREE) X(I_GET) X(I_DUP)
X(ALLOC) X(FREEMEM)
X(T_CONTIG) X(T_VECTOR) X(T_HVECTOR) X(T_INDEXED) X(T_HINDEXED) X(T_IBLOCK) X(T_HIBLOCK) X(T_STRUCT) X(T_SUBARRAY) X(T_RESIZED) X(T_DUP) X(T_COMMIT) X(T_FREE) X(T_SIZE) X(T_EXTENT) X(T_TEXTENT)
X(PACK) X(UNPACK)
X(W_CREATE) X(W_ALLOCATE) X(W_FREE) X(W_LOCK) X(W_UNLOCK) X(W_LOCKALL) X(W_UNLOCKALL) X(W_FLUSH) X(W_FLUSHALL) X(W_FLUSHL) X(W_FLUSHLALL) X(W_SYNC) X(W_FENCE) X(W_ATTR) X(W_GROUP)
X(PUT) X(GET) X(ACC) X(GACC) X(FOP) X(CAS) X(RPUT) X(RGET) X(RACC) X(RGACC)
X(COLLWAIT) X(SENDWAIT)
X(MC_BEGIN) X(MC_END) X(MC_BARRIER) X(MC_YIELD) X(MC_BLOCK) X(MC_FAIL) X(MC_CHOOSE) X(MC_DELIVERALL) X(MC_PEEK) X(MC_POKE) X(MC_EXPECT) X(MC_RES) X(MC_LEAK) X(MC_ADDR) X(MC_COUNTER) X(MC_TCREATE) X(MC_TJOIN) X(MC_SKIP) X(MC_ACCESS)
X(PM_LOCK) X(PM_TRYLOCK) X(PM_UNLOCK) X(PC_ENTER) X(PC_BLOCK) X(PC_SIGNAL) X(RW_RD) X(RW_WR) X(RW_UN) X(MALLOC) X(FREE) X(EXIT)
