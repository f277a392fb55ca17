/* MPI interface of the model-checking message layer (mcx).  Handles are ints. */
#ifndef MCX_MPI_H
#define MCX_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
typedef int MPI_Comm; typedef int MPI_Group; typedef int MPI_Win; typedef int MPI_Datatype;
typedef int MPI_Op; typedef int MPI_Info; typedef int MPI_Request; typedef int MPI_Errhandler; typedef int MPI_Message;
typedef long MPI_Aint; typedef long long MPI_Offset; typedef long long MPI_Count; typedef int MPI_Fint;
typedef struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int _pad; long _bytes; int _cancelled, _pad2; } MPI_Status;
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_BOTTOM ((void*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_ERR_ARG 12
#define MPI_UNDEFINED (-32766)
#define MPI_ANY_SOURCE (-2)
#define MPI_PROC_NULL (-1)
#define MPI_ANY_TAG (-1)
#define MPI_ROOT (-3)
#define MPI_MAX_LIBRARY_VERSION_STRING 256
#define MPI_MAX_PROCESSOR_NAME 128
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_INFO_KEY 255
#define MPI_MAX_INFO_VAL 1024
#define MPI_MAX_OBJECT_NAME 128
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
/* handle kinds (high byte): 1 comm 2 group 3 win 4 type 5 op 6 info 7 request 8 errhandler */
#define MPI_COMM_NULL    0x01000000
#define MPI_COMM_WORLD   0x01000001
#define MPI_COMM_SELF    0x01000002
#define MPI_GROUP_NULL   0x02000000
#define MPI_GROUP_EMPTY  0x02000001
#define MPI_WIN_NULL     0x03000000
#define MPI_INFO_NULL    0x06000000
#define MPI_REQUEST_NULL 0x07000000
#define MPI_ERRORS_ARE_FATAL 0x08000001
#define MPI_ERRORS_RETURN    0x08000002
#define MPI_MESSAGE_NULL 0x09000000
#define MPI_DATATYPE_NULL 0x04000000
#define MPI_BYTE          0x04000001
#define MPI_CHAR          0x04000002
#define MPI_SIGNED_CHAR   0x04000003
#define MPI_UNSIGNED_CHAR 0x04000004
#define MPI_SHORT         0x04000005
#define MPI_UNSIGNED_SHORT 0x04000006
#define MPI_INT           0x04000007
#define MPI_UNSIGNED      0x04000008
#define MPI_LONG          0x04000009
#define MPI_UNSIGNED_LONG 0x0400000a
#define MPI_LONG_LONG     0x0400000b
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_UNSIGNED_LONG_LONG 0x0400000c
#define MPI_FLOAT         0x0400000d
#define MPI_DOUBLE        0x0400000e
#define MPI_LONG_DOUBLE   0x0400000f
#define MPI_AINT          0x04000010
#define MPI_INT8_T        0x04000011
#define MPI_INT16_T       0x04000012
#define MPI_INT32_T       0x04000013
#define MPI_INT64_T       0x04000014
#define MPI_UINT8_T       0x04000015
#define MPI_UINT16_T      0x04000016
#define MPI_UINT32_T      0x04000017
#define MPI_UINT64_T      0x04000018
#define MPI_C_FLOAT_COMPLEX  0x04000019
#define MPI_C_COMPLEX MPI_C_FLOAT_COMPLEX
#define MPI_C_DOUBLE_COMPLEX 0x0400001a
#define MPI_C_BOOL        0x0400001b
#define MPI_2INT          0x0400001c
#define MPI_DOUBLE_INT    0x0400001d
#define MPI_LONG_INT      0x0400001e
#define MPI_FLOAT_INT     0x0400001f
#define MPI_COUNT         0x04000020
#define MPI_OFFSET        0x04000021
#define MPI_PACKED        MPI_BYTE
#define MPI_COMPLEX MPI_C_FLOAT_COMPLEX
#define MPI_DOUBLE_COMPLEX MPI_C_DOUBLE_COMPLEX
#define MPI_OP_NULL 0x05000000
#define MPI_MAX     0x05000001
#define MPI_MIN     0x05000002
#define MPI_SUM     0x05000003
#define MPI_PROD    0x05000004
#define MPI_LAND    0x05000005
#define MPI_BAND    0x05000006
#define MPI_LOR     0x05000007
#define MPI_BOR     0x05000008
#define MPI_LXOR    0x05000009
#define MPI_BXOR    0x0500000a
#define MPI_MINLOC  0x0500000b
#define MPI_MAXLOC  0x0500000c
#define MPI_REPLACE 0x0500000d
#define MPI_NO_OP   0x0500000e
#define MPI_LOCK_EXCLUSIVE 234
#define MPI_LOCK_SHARED 235
#define MPI_MODE_NOCHECK 1024
#define MPI_MODE_NOSTORE 2048
#define MPI_MODE_NOPUT 4096
#define MPI_MODE_NOPRECEDE 8192
#define MPI_MODE_NOSUCCEED 16384
#define MPI_WIN_BASE 1
#define MPI_WIN_SIZE 2
#define MPI_WIN_DISP_UNIT 3
#define MPI_WIN_CREATE_FLAVOR 4
#define MPI_WIN_MODEL 5
#define MPI_WIN_FLAVOR_CREATE 1
#define MPI_WIN_FLAVOR_ALLOCATE 2
#define MPI_WIN_FLAVOR_DYNAMIC 3
#define MPI_WIN_FLAVOR_SHARED 4
#define MPI_WIN_SEPARATE 1
#define MPI_WIN_UNIFIED 2
#define MPI_TAG_UB 10
#define MPI_WTIME_IS_GLOBAL 11
#define MPI_ORDER_C 56
#define MPI_ORDER_FORTRAN 57
#define MPI_COMM_TYPE_SHARED 1
typedef void MPI_User_function(void *, void *, int *, MPI_Datatype *);
typedef void MPI_Comm_errhandler_function(MPI_Comm *, int *, ...);

int MPI_Init(int*,char***); int MPI_Init_thread(int*,char***,int,int*); int MPI_Finalize(void);
int MPI_Initialized(int*); int MPI_Finalized(int*); int MPI_Query_thread(int*); int MPI_Is_thread_main(int*);
int MPI_Abort(MPI_Comm,int); double MPI_Wtime(void); double MPI_Wtick(void);
int MPI_Get_version(int*,int*); int MPI_Get_library_version(char*,int*); int MPI_Get_processor_name(char*,int*);
int MPI_Error_string(int,char*,int*); int MPI_Error_class(int,int*);
int MPI_Comm_rank(MPI_Comm,int*); int MPI_Comm_size(MPI_Comm,int*); int MPI_Comm_remote_size(MPI_Comm,int*); int MPI_Comm_test_inter(MPI_Comm,int*);
int MPI_Comm_dup(MPI_Comm,MPI_Comm*); int MPI_Comm_dup_with_info(MPI_Comm,MPI_Info,MPI_Comm*); int MPI_Comm_split(MPI_Comm,int,int,MPI_Comm*);
int MPI_Comm_split_type(MPI_Comm,int,int,MPI_Info,MPI_Comm*);
int MPI_Comm_create(MPI_Comm,MPI_Group,MPI_Comm*); int MPI_Comm_create_group(MPI_Comm,MPI_Group,int,MPI_Comm*); int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_group(MPI_Comm,MPI_Group*); int MPI_Comm_compare(MPI_Comm,MPI_Comm,int*);
int MPI_Comm_set_errhandler(MPI_Comm,MPI_Errhandler); int MPI_Comm_get_attr(MPI_Comm,int,void*,int*); int MPI_Comm_set_name(MPI_Comm,const char*);
int MPI_Comm_set_info(MPI_Comm,MPI_Info);
int MPI_Intercomm_create(MPI_Comm,int,MPI_Comm,int,int,MPI_Comm*); int MPI_Intercomm_merge(MPI_Comm,int,MPI_Comm*);
int MPI_Group_incl(MPI_Group,int,const int*,MPI_Group*); int MPI_Group_excl(MPI_Group,int,const int*,MPI_Group*); int MPI_Group_free(MPI_Group*);
int MPI_Group_translate_ranks(MPI_Group,int,const int*,MPI_Group,int*); int MPI_Group_size(MPI_Group,int*); int MPI_Group_rank(MPI_Group,int*);
int MPI_Group_compare(MPI_Group,MPI_Group,int*); int MPI_Group_union(MPI_Group,MPI_Group,MPI_Group*); int MPI_Group_intersection(MPI_Group,MPI_Group,MPI_Group*); int MPI_Group_difference(MPI_Group,MPI_Group,MPI_Group*);
int MPI_Send(const void*,int,MPI_Datatype,int,int,MPI_Comm); int MPI_Ssend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Bsend(const void*,int,MPI_Datatype,int,int,MPI_Comm); int MPI_Rsend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Isend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*); int MPI_Issend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Irecv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Recv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*); int MPI_Probe(int,int,MPI_Comm,MPI_Status*); int MPI_Iprobe(int,int,MPI_Comm,int*,MPI_Status*);
int MPI_Sendrecv(const void*,int,MPI_Datatype,int,int,void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Get_count(const MPI_Status*,MPI_Datatype,int*); int MPI_Get_elements(const MPI_Status*,MPI_Datatype,int*);
int MPI_Wait(MPI_Request*,MPI_Status*); int MPI_Test(MPI_Request*,int*,MPI_Status*); int MPI_Waitall(int,MPI_Request*,MPI_Status*);
int MPI_Testall(int,MPI_Request*,int*,MPI_Status*); int MPI_Waitany(int,MPI_Request*,int*,MPI_Status*); int MPI_Testany(int,MPI_Request*,int*,int*,MPI_Status*);
int MPI_Waitsome(int,MPI_Request*,int*,int*,MPI_Status*); int MPI_Testsome(int,MPI_Request*,int*,int*,MPI_Status*); int MPI_Request_free(MPI_Request*);
int MPI_Request_get_status(MPI_Request,int*,MPI_Status*);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void*,int,MPI_Datatype,int,MPI_Comm); int MPI_Reduce(const void*,void*,int,MPI_Datatype,MPI_Op,int,MPI_Comm);
int MPI_Ibarrier(MPI_Comm,MPI_Request*);
int MPI_Allreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm); int MPI_Allgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
int MPI_Allgatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,MPI_Comm);
int MPI_Gather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm); int MPI_Scatter(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Alltoall(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm); int MPI_Scan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm); int MPI_Exscan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Reduce_scatter_block(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm); int MPI_Reduce_local(const void*,void*,int,MPI_Datatype,MPI_Op);
int MPI_Op_create(MPI_User_function*,int,MPI_Op*); int MPI_Op_free(MPI_Op*); int MPI_Op_commutative(MPI_Op,int*);
int MPI_Info_create(MPI_Info*); int MPI_Info_set(MPI_Info,const char*,const char*); int MPI_Info_free(MPI_Info*); int MPI_Info_get(MPI_Info,const char*,int,char*,int*); int MPI_Info_dup(MPI_Info,MPI_Info*);
int MPI_Alloc_mem(MPI_Aint,MPI_Info,void*); int MPI_Free_mem(void*); int MPI_Get_address(const void*,MPI_Aint*); MPI_Aint MPI_Aint_add(MPI_Aint,MPI_Aint); MPI_Aint MPI_Aint_diff(MPI_Aint,MPI_Aint);
int MPI_Type_contiguous(int,MPI_Datatype,MPI_Datatype*); int MPI_Type_vector(int,int,int,MPI_Datatype,MPI_Datatype*); int MPI_Type_create_hvector(int,int,MPI_Aint,MPI_Datatype,MPI_Datatype*);
int MPI_Type_indexed(int,const int*,const int*,MPI_Datatype,MPI_Datatype*); int MPI_Type_create_hindexed(int,const int*,const MPI_Aint*,MPI_Datatype,MPI_Datatype*);
int MPI_Type_create_indexed_block(int,int,const int*,MPI_Datatype,MPI_Datatype*); int MPI_Type_create_hindexed_block(int,int,const MPI_Aint*,MPI_Datatype,MPI_Datatype*);
int MPI_Type_create_struct(int,const int*,const MPI_Aint*,const MPI_Datatype*,MPI_Datatype*); int MPI_Type_create_subarray(int,const int*,const int*,const int*,int,MPI_Datatype,MPI_Datatype*);
int MPI_Type_create_resized(MPI_Datatype,MPI_Aint,MPI_Aint,MPI_Datatype*); int MPI_Type_dup(MPI_Datatype,MPI_Datatype*);
int MPI_Type_commit(MPI_Datatype*); int MPI_Type_free(MPI_Datatype*); int MPI_Type_size(MPI_Datatype,int*); int MPI_Type_size_x(MPI_Datatype,MPI_Count*);
int MPI_Type_get_extent(MPI_Datatype,MPI_Aint*,MPI_Aint*); int MPI_Type_get_true_extent(MPI_Datatype,MPI_Aint*,MPI_Aint*);
int MPI_Pack(const void*,int,MPI_Datatype,void*,int,int*,MPI_Comm); int MPI_Unpack(const void*,int,int*,void*,int,MPI_Datatype,MPI_Comm); int MPI_Pack_size(int,MPI_Datatype,MPI_Comm,int*);
int MPI_Win_create(void*,MPI_Aint,int,MPI_Info,MPI_Comm,MPI_Win*); int MPI_Win_allocate(MPI_Aint,int,MPI_Info,MPI_Comm,void*,MPI_Win*); int MPI_Win_free(MPI_Win*);
int MPI_Win_lock(int,int,int,MPI_Win); int MPI_Win_unlock(int,MPI_Win); int MPI_Win_lock_all(int,MPI_Win); int MPI_Win_unlock_all(MPI_Win);
int MPI_Win_flush(int,MPI_Win); int MPI_Win_flush_all(MPI_Win); int MPI_Win_flush_local(int,MPI_Win); int MPI_Win_flush_local_all(MPI_Win); int MPI_Win_sync(MPI_Win);
int MPI_Win_fence(int,MPI_Win);
int MPI_Win_get_attr(MPI_Win,int,void*,int*); int MPI_Win_get_group(MPI_Win,MPI_Group*); int MPI_Win_set_info(MPI_Win,MPI_Info); int MPI_Win_set_name(MPI_Win,const char*); int MPI_Win_set_errhandler(MPI_Win,MPI_Errhandler);
int MPI_Put(const void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Win); int MPI_Get(void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Win);
int MPI_Accumulate(const void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Op,MPI_Win);
int MPI_Get_accumulate(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Op,MPI_Win);
int MPI_Fetch_and_op(const void*,void*,MPI_Datatype,int,MPI_Aint,MPI_Op,MPI_Win); int MPI_Compare_and_swap(const void*,const void*,void*,MPI_Datatype,int,MPI_Aint,MPI_Win);
int MPI_Rput(const void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Win,MPI_Request*); int MPI_Rget(void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Win,MPI_Request*);
int MPI_Raccumulate(const void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Op,MPI_Win,MPI_Request*);
int MPI_Rget_accumulate(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Op,MPI_Win,MPI_Request*);
#ifdef __cplusplus
}
#endif
#endif
