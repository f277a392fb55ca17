#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=mechanism, where=", ".join(files))])))

p("C01", "Contiguous put and get move exactly the requested bytes",
  "A blocking contiguous put (get), once it has completed remotely (returned), leaves exactly the source bytes in the destination range on the addressed process and changes no other byte of any process's memory. "
  "This holds whether the target is the caller or another process, for global-memory addresses that lie anywhere in any live allocation (including allocations whose addresses coincide on different processes), and for local buffers in private or in global memory.",
  ["inputs", "configurations", "schedules"],
  "every size (incl. 0 and 1), offset, target process, allocation, address layout across processes, location of the local buffer, buffer-guard method, window kind, ordering/flush setting, and completion timing the MPI layer is allowed",
  "the tests use a handful of sizes on one symmetric allocation and one MPI implementation whose transfers complete eagerly; address coincidences, offsets, late completion and guard modes are not varied",
  ["src/onesided.c", "src/gmr.c", "src/internals.c"],
  "address+process lookup in the region list, displacement computation, flush after the MPI operation, private copy when the local buffer is global")

p("C02", "Strided transfers equal the reference element-by-element copy",
  "A strided put or get moves byte (i0,..,in) of the source block to byte (i0,..,in) of the destination block for every index below the counts, and touches nothing else. "
  "The result is the same for blocking and non-blocking forms, for every stride depth the interface accepts, for every pair of source/destination stride arrays that describe non-overlapping blocks, and for every configured strided method.",
  ["inputs", "configurations"],
  "all counts, source strides, destination strides and depths; both strided methods and all vector methods; private and global local buffers; self and remote targets",
  "the tests run a few 2-D and 3-D shapes with equal strides on both sides; degenerate counts, unequal strides, deeper levels and method combinations are not enumerated",
  ["src/strided.c", "src/strided_nb.c"],
  "translation of a strided descriptor into an MPI subarray datatype or into an I/O vector")

p("C03", "Vector transfers equal the segment-by-segment reference",
  "A vector put or get over any list of descriptors copies each segment's bytes from its source address to its destination address on the addressed process and touches nothing else; empty descriptors and zero-length segments are no-ops. "
  "The outcome is independent of the configured vector method, batch limit, datatype chunk and overlap checking, and segments of one descriptor may lie in any order in memory and, when checking is enabled, in different allocations.",
  ["inputs", "configurations"],
  "all segment counts, lengths, orders and address patterns; all vector methods, batch limits, chunk sizes, checks on/off; blocking and non-blocking",
  "the tests use one ascending regular pattern per program and one method at a time",
  ["src/vector.c", "src/vector_nb.c", "src/buffer.c"],
  "per-descriptor dispatch to conservative, batched or datatype implementations with buffer preparation/finish around it")

p("C04", "Accumulate adds scale*source, exactly and only where asked",
  "After remote completion of an accumulate (contiguous, strided or vector; blocking or non-blocking) every addressed destination element equals its previous value plus scale times the corresponding source element, with complex scaling for the complex types, and no other byte has changed. "
  "The source buffer is never modified.",
  ["inputs", "configurations"],
  "all six element types, scale values (0, 1, -1, fractional, complex), counts, shapes, methods and local buffer placements",
  "the tests use double with one or two scale values; complex types, integer types, scaled non-blocking vector forms and guard modes are not combined",
  ["src/onesided.c", "src/onesided_nb.c", "src/buffer.c", "src/strided.c", "src/strided_nb.c", "src/vector.c", "src/vector_nb.c"],
  "scaling into a temporary buffer, type translation, MPI_Accumulate with MPI_SUM")

p("C05", "Concurrent accumulates never lose or tear an update",
  "When several processes accumulate into overlapping global locations concurrently, then after they have all completed each element equals its initial value plus the sum of every contribution, whatever the interleaving and whichever accumulate forms are mixed. "
  "A process's own accumulate never overtakes or drops its earlier accumulates to the same location.",
  ["schedules", "configurations"],
  "all interleavings of the processes' MPI operations and of target-side element updates, for every accumulate form and method",
  "the tests sample whatever interleaving the machine happens to produce, mostly on non-overlapping patches",
  ["src/onesided.c", "src/vector.c", "src/strided.c", "src/gmr.c"],
  "use of element-wise atomic MPI accumulate operations rather than get-modify-put")

p("C06", "Read-modify-write operations are atomic and immediately usable",
  "Concurrent fetch-and-add and swap operations (int and long) on a location return values and leave a final value that correspond to executing them one at a time in some order respecting each process's program order, without losing high-order bits of negative or large values. "
  "Only the addressed int or long changes, and a swap's effect is visible to later accesses by any process once the swap has returned.",
  ["schedules", "inputs", "configurations"],
  "all interleavings of 2-4 processes issuing mixed operations of one width; all settings of the request/flush options; locations owned by self or others; result location private or global",
  "the tests count up a shared counter under one schedule; return-value histories are not checked for linearizability",
  ["src/rmw.c", "src/gmr.c"],
  "MPI_Fetch_and_op or request-based MPI_Rget_accumulate with optional flush")

p("C07", "Fence, fence-all and barrier complete every prior operation remotely",
  "When a fence on a process returns, every earlier put and accumulate by the caller to that process, in every allocation (world or group) and in blocking, non-blocking or vector form, is visible there to direct loads and to third parties; fence-all and the barrier give this for all processes. "
  "No process leaves the barrier before all have entered it, and fences are legal at any time, whatever allocations and groups exist.",
  ["schedules", "histories", "configurations"],
  "all completion timings MPI permits, all sets of live allocations and groups, all operation kinds preceding the fence",
  "the MPI in the sandbox applies transfers at issue time, so a missing flush is invisible to every test",
  ["src/util.c", "src/gmr.c", "src/onesided_nb.c"],
  "loop over the region list issuing MPI_Win_flush / flush_all, then MPI_Barrier and sync")

p("C08", "Local buffers are safe to reuse when a call says so",
  "When a blocking operation returns, or a non-blocking operation has been waited for, its source buffer may be overwritten or freed and its result buffer read without affecting or seeing the transfer in flight. "
  "No operation reads or writes a caller's buffer, or a temporary of the library that has been released, after that point.",
  ["schedules", "inputs", "configurations"],
  "all completion timings MPI permits (origin data read as late as local completion allows), all operation forms, methods and buffer placements",
  "an MPI that copies eagerly hides every premature reuse or release of an origin buffer",
  ["src/onesided.c", "src/onesided_nb.c", "src/vector.c", "src/vector_nb.c", "src/strided.c", "src/strided_nb.c", "src/buffer.c", "src/value_ops.c"],
  "local flush or request wait before returning, and before freeing temporaries")

p("C09", "Non-blocking handles complete exactly the operations they carry",
  "Waiting on a handle returns only after every operation issued with it is locally complete; testing a handle eventually reports completion and never reports it early; a completed or fresh handle can be reused, and one handle can carry any number of operations of any kind. "
  "Wait-for-process and wait-for-all complete all outstanding implicit-handle operations to that process (to everyone).",
  ["histories", "schedules", "configurations"],
  "all sequences of non-blocking operations, handle initialisations, tests and waits up to the bound, all request completion timings, self and remote targets",
  "tests follow the single pattern issue-then-wait with one to a few operations per handle",
  ["src/onesided_nb.c", "src/gmr.c", "src/strided_nb.c", "src/vector_nb.c"],
  "handle holding zero, one or an array of MPI requests; MPI_Wait/Waitall/Test/Testall; flushes for implicit handles")

p("C10", "Mutexes exclude, never deadlock, and are handed over fairly",
  "At most one process holds a given mutex of a given host at any time, data written to global memory under the mutex and fenced before the release is seen by the next holder, and if every holder eventually unlocks then every lock call returns. "
  "A waiting process is bypassed by any other process at most a bounded number of times, distinct mutexes and distinct hosts do not interfere, and mutex sets created on groups obey the same rules.",
  ["schedules", "histories", "configurations"],
  "all interleavings of 2-4 processes locking and unlocking up to three mutexes on up to two hosts, including nested use of distinct mutexes, uneven mutex counts and group mutex sets",
  "the tests observe one schedule per run; lost hand-overs and double grants need specific interleavings",
  ["src/mutex.c", "src/mutex_hdl_queue.c"],
  "byte queue on the host updated under an exclusive window lock, hand-over by zero-byte message to the next waiter in rank order")

p("C11", "Global memory allocation, lookup and free are consistent",
  "After a collective allocation every member holds the same base-pointer table, each entry addresses exactly the bytes that member asked for (null exactly where it asked for zero), and all of them are usable until that allocation is freed. "
  "Any order of allocations and frees on any groups, with any mix of zero sizes, null or interior pointers passed to free, releases exactly the named allocation, leaves the contents and usability of the others intact, and releases all memory and windows.",
  ["histories", "inputs", "configurations"],
  "all sequences of allocation and free operations up to the bound on world and subgroups, all size vectors incl. zeros, all address layouts across processes, both window kinds",
  "tests allocate and free in one order with symmetric addresses",
  ["src/malloc.c", "src/gmr.c", "src/armci-memdev.c"],
  "collective region creation with address exchange, doubly linked region list, free by base address agreement")

p("C12", "Groups have the requested members, ranks and translations",
  "A group created from a list of process ids, by splitting or by duplication contains exactly the requested processes in the requested order; each member's rank, the size and the translation between group and absolute ids agree with that order on all members, and non-members see a non-member group. "
  "Collective and non-collective creation give the same groups with no message leaking into user traffic, nested creation is relative to the parent, and freeing a group (member or not) leaves others usable.",
  ["inputs", "schedules", "configurations"],
  "all member lists over up to five processes and all nestings up to the bound, both creation algorithms, translation caching on and off, all interleavings of concurrent non-collective creations at the bound",
  "tests create a few fixed groups with the default algorithm and cache setting only",
  ["src/groups.c", "src/internals.c"],
  "MPI_Comm_create or recursive intercommunicator merging; optional rank translation tables")

p("C13", "Global reductions deliver the mathematical result to every member",
  "A global operation on n elements leaves on every member of the scope and group the elementwise sum, product, min, max, absmin, absmax, or, and logical/bitwise combination of all members' inputs, for every supported element type and n, including groups of one process and the node scope. "
  "The result does not depend on how the message layer associates, orders or segments the reduction, nor on whether the buffer is private or global.",
  ["inputs", "configurations", "schedules"],
  "all operator names, types, vector lengths, group shapes, scopes, input sign patterns, reduction trees and segmentations at the bound",
  "test_igop checks one operator set on one communicator with the MPI library's own reduction order",
  ["src/message_gop.c"],
  "operator-name dispatch to MPI_Allreduce with built-in or user-defined operators")

p("C14", "Messaging primitives deliver the right bytes to the right process",
  "Broadcast delivers the root's bytes to every member of its scope and group; a receive returns the first matching message with its true length and, for receive-any, its true source, and changes nothing beyond that length; selection returns the contribution with the extreme key among contributing processes to everyone; the tree query describes one consistent binary tree over all processes. "
  "This holds for private and global buffers and every message order the message layer permits.",
  ["inputs", "schedules", "configurations"],
  "all roots, scopes, groups, lengths, contribution patterns, keys, guard modes, message arrival orders and reduction segmentations at the bound",
  "no test calls selection, receive-any or the tree query, or varies the guard mode",
  ["src/message.c"],
  "wrappers over MPI_Bcast, MPI_Send/Recv and MPI_Allreduce with user operators, with shared-buffer guarding")

p("C15", "Overlap detection is exact",
  "The range conflict tree reports a conflict for an inserted range exactly when it intersects a range already stored, a rejected insertion leaves the stored set unchanged, lookup finds a stored range exactly when one intersects the query, and the tree stays a height-balanced ordered tree. "
  "A vector operation with checking enabled is recognised as overlapping exactly when two of its destination segments share a byte, and as spanning several allocations exactly when its remote segments do.",
  ["histories", "inputs"],
  "all insertion sequences of ranges over a small ordered address domain up to the bound, and all permutations of longer disjoint sets",
  "random tests sample insertion orders and check neither balance nor the negative answers exhaustively",
  ["src/conflict_tree.c", "src/conflict_tree.h", "src/vector.c"],
  "AVL tree of disjoint [lo,hi] ranges")

p("C16", "Initialisation and finalisation are counted, complete and repeatable",
  "The library reports itself initialised exactly between the first initialise and the finalise that balances it, under any nesting of initialise calls, on the world or on a user communicator; extra finalise calls are harmless. "
  "The last finalise releases every leaked allocation and every MPI object the library created, and the library can be initialised and used again afterwards.",
  ["histories", "configurations"],
  "all sequences of initialise/finalise/allocate/free up to the bound, all initialisation entry points, communicators and settings",
  "every test performs one initialise and one finalise",
  ["src/init_finalize.c", "src/gmr.c", "src/groups.c"],
  "reference count, creation of world group and operators, destruction of remaining regions")

p("C17", "A put-with-flag never shows the flag before the data",
  "If a process observes the flag value written by a put-with-flag (contiguous or strided), by direct load or by a get, then it also observes all of that operation's data, whatever allocations data and flag live in. "
  "On success the call reports success and flag and data both become visible after a fence.",
  ["schedules", "configurations"],
  "all delivery orders of data and flag, all methods, flag in the same or another allocation, reader local or third party",
  "with in-order eager delivery the property cannot fail in a test",
  ["src/onesided.c", "src/strided.c"],
  "fence between the data put and the flag put")

p("C18", "Run-time settings are parsed as documented and never change results",
  "Every documented environment setting accepts its documented values, ignores or clamps invalid ones, and the result of a correct program does not depend on any combination of them, nor on the MPI library flavour the code is compiled for. "
  "In particular no setting combination makes a legal program fail, hang or issue an MPI call that MPI forbids.",
  ["configurations", "programs"],
  "all pairwise (quick) or all (thorough) combinations of the settings with a program that uses every part of the interface, three MPI flavours",
  "the tests run three fixed configurations",
  ["src/init_finalize.c", "src/util.c", "README.md"],
  "environment parsing at initialisation; method dispatch")

p("C19", "Concurrent threads do not corrupt the library",
  "With thread-multiple support, threads of one process may concurrently transfer data, allocate and free disjoint memory, and use mutexes; every operation behaves as if the threads' calls had been executed in some order. "
  "No call made by one thread blocks forever because another thread of the same process is inside a call.",
  ["schedules"],
  "all interleavings of two threads per process at lock and MPI-call granularity (and at shared-memory-access granularity for the registry), at the bound",
  "no test uses threads",
  ["src/gmr.c", "src/mutex.c", "src/init_finalize.c"],
  "process-local pthread mutexes around the region list and the mutex handle")

p("C20", "MPI is used within its rules and every resource is released",
  "In every execution each MPI call the library makes is legal: epochs are open, windows, types and communicators are live and committed, transfers lie inside the target window, collectives match, buffers are not released while in flight. "
  "After finalisation no window, communicator, datatype, group, info, operator, request or library-allocated memory remains, and with a library limited to a number of outstanding request-based transfers that limit is never exceeded.",
  ["programs", "schedules", "configurations"],
  "all programs over the interface up to the bound, all configurations, three MPI flavours, completion timings",
  "a leak or an illegal but tolerated MPI call passes every test",
  ["src/gmr.c", "src/strided.c", "src/strided_nb.c", "src/vector.c", "src/buffer.c", "src/groups.c", "src/init_finalize.c", "src/mutex_hdl_queue.c"],
  "pairing of create/free, lock_all epochs per region, bounded request counter")

p("C21", "Transfers outside an allocation are rejected and never touch memory outside it",
  "A transfer, accumulate or read-modify-write whose remote range is not entirely inside one live allocation of the addressed process terminates the program with a diagnostic, and one that is entirely inside is never rejected. A rejected contiguous transfer or read-modify-write has changed no byte on any process; a rejected strided or vector transfer has changed at most bytes of its pieces that do lie inside a live allocation. "
  "This holds for contiguous, strided and vector forms, for addresses before, straddling or after an allocation, and for freed allocations.",
  ["inputs", "configurations"],
  "all offsets and lengths around both ends of allocations of small sizes, all operation forms and methods, remote targets",
  "no test performs an invalid transfer",
  ["src/gmr.c", "src/vector.c", "src/strided.c", "src/rmw.c"],
  "region lookup and displacement/extent assertions")

p("C22", "Value operations transfer exactly one scalar",
  "A value put stores exactly the given int, long, float or double at the addressed location (visible after a fence or, for the non-blocking form, after wait and fence) and a value get returns exactly the stored scalar, for every bit pattern, self or remote. "
  "Neighbouring bytes are not touched.",
  ["inputs", "configurations"],
  "all four types, boundary bit patterns, offsets, targets, blocking and non-blocking forms, completion timings",
  "tests use value operations incidentally if at all",
  ["src/value_ops.c"],
  "wrappers over put/get on a stack temporary")

p("C23", "One process's accesses to a location keep program order",
  "With the settings the documentation names for location consistency (element-wise atomic transfers, or end-to-end flushing), a get by a process returns the latest value that process itself put or accumulated to that location, and its successive blocking puts and accumulates to one location take effect in program order. "
  "A process that has synchronised with the writer after a fence reads the written value.",
  ["histories", "schedules", "configurations"],
  "all programs of up to four puts, accumulates, gets and read-modify-writes by a process to overlapping ranges, all delivery orders allowed by MPI",
  "the location-consistency test runs under one MPI that delivers in order",
  ["src/gmr.c", "src/onesided.c", "src/init_finalize.c"],
  "accumulate ordering window hints, MPI_REPLACE/NO_OP accumulates, flush instead of flush_local")

p("C24", "Global-memory local buffers behave like private ones",
  "When an operation's local buffer lies in global memory, in the same or in a different allocation as the remote buffer and on the same or another process, the outcome is what it would be with a private buffer of the same content. "
  "With buffer guarding on, this holds for every contiguous, strided, vector, accumulate, read-modify-write and messaging operation, and the buffer's remaining bytes are preserved.",
  ["inputs", "configurations"],
  "all operation forms, methods and placements of the local buffer relative to allocations, including self-targets and partially shared segment lists",
  "two tests use a global source with one shape",
  ["src/buffer.c", "src/onesided.c", "src/onesided_nb.c", "src/strided.c", "src/message.c", "src/message_gop.c"],
  "lookup of the local address and copy to/from a private temporary")

p("C25", "Process-topology queries are one consistent partition",
  "The domain count, sizes, ids and translations describe one partition of all processes that is the same from every process: each process is in exactly one domain, translating a process to its domain and back returns it, and the same-domain and same-node queries agree with the partition. "
  "Process id and process count queries agree with the world group.",
  ["inputs", "configurations"],
  "every process, every queried process and every process count up to eight",
  "no test calls the topology interface",
  ["src/topology.c", "src/message.c"],
  "one domain per process")

p("C26", "Strided pack and unpack are exact inverses",
  "Packing a strided block produces its bytes in index order in a contiguous buffer of exactly the block's size, and unpacking writes exactly the block's bytes back; unpack after pack is the identity and neither touches any other byte. "
  "This holds for every depth, count and stride, including counts of one.",
  ["inputs"],
  "all depths up to four and all counts/strides at the bound, with spot depths to eight",
  "pack and unpack are exercised only indirectly and with regular shapes",
  ["src/strided.c"],
  "odometer loop over stride levels")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
