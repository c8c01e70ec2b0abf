// Stand-in for <mpi.h>: the functions are provided by the simulator (engine_mpi.h).
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Request; typedef int MPI_Info; typedef int MPI_Op; typedef int MPI_Errhandler; typedef int MPI_Message; typedef long MPI_Aint; typedef int MPI_Group;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int sim_bytes, sim_cancelled; } MPI_Status;
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
/* the low byte of a type is its size */
#define MPI_DATATYPE_NULL 0
#define MPI_BYTE 0x101
#define MPI_CHAR 0x201
#define MPI_SIGNED_CHAR 0x301
#define MPI_UNSIGNED_CHAR 0x401
#define MPI_PACKED 0x501
#define MPI_CXX_BOOL 0x601
#define MPI_C_BOOL 0x701
#define MPI_INT8_T 0x801
#define MPI_UINT8_T 0x901
#define MPI_SHORT 0x102
#define MPI_UNSIGNED_SHORT 0x202
#define MPI_INT16_T MPI_SHORT
#define MPI_UINT16_T MPI_UNSIGNED_SHORT
#define MPI_INT 0x104
#define MPI_UNSIGNED 0x204
#define MPI_FLOAT 0x304
#define MPI_INT32_T MPI_INT
#define MPI_UINT32_T MPI_UNSIGNED
#define MPI_LONG 0x108
#define MPI_UNSIGNED_LONG 0x208
#define MPI_DOUBLE 0x308
#define MPI_LONG_LONG MPI_LONG
#define MPI_LONG_LONG_INT MPI_LONG
#define MPI_UNSIGNED_LONG_LONG MPI_UNSIGNED_LONG
#define MPI_INT64_T MPI_LONG
#define MPI_UINT64_T MPI_UNSIGNED_LONG
#define MPI_AINT MPI_LONG
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-3)
#define MPI_UNDEFINED (-32766)
#define MPI_TAG_UB 1
#define MPI_SUCCESS 0
#define MPI_ERR_TRUNCATE 15
#define MPI_ERR_OTHER 16
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2
#define MPI_REQUEST_NULL (-1)
#define MPI_MESSAGE_NULL (-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_INFO_NULL 0
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_BSEND_OVERHEAD 128
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_SUM 1
#define MPI_PROD 2
#define MPI_MAX 3
#define MPI_MIN 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_BAND 7
#define MPI_BOR 8
int MPI_Init_thread(int*, char***, int req, int* prov);
int MPI_Init(int*, char***);
int MPI_Query_thread(int* l);
int MPI_Is_thread_main(int* f);
int MPI_Initialized(int* f);
int MPI_Finalized(int* f);
int MPI_Comm_rank(MPI_Comm m, int* r);
int MPI_Comm_size(MPI_Comm m, int* r);
int MPI_Comm_dup(MPI_Comm, MPI_Comm* r);
int MPI_Comm_free(MPI_Comm* r);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Errhandler_set(MPI_Comm, MPI_Errhandler);
int MPI_Error_string(int, char* s, int* n);
int MPI_Get_processor_name(char* s, int* n);
int MPI_Abort(MPI_Comm, int code);
int MPI_Finalize(void);
int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm m, MPI_Request* r);
int MPI_Issend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm m, MPI_Request* r);
int MPI_Ibsend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm m, MPI_Request* r);
int MPI_Irsend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm m, MPI_Request* r);
int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm m);
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm m);
int MPI_Bsend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm m);
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm m);
int MPI_Buffer_attach(void*, int);
int MPI_Buffer_detach(void*, int*);
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm m, MPI_Request* r);
int MPI_Test(MPI_Request* r, int* flag, MPI_Status* st);
int MPI_Request_get_status(MPI_Request r, int* flag, MPI_Status* st);
int MPI_Testall(int n, MPI_Request* r, int* flag, MPI_Status* st);
int MPI_Testany(int n, MPI_Request* r, int* idx, int* flag, MPI_Status* st);
int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* st);
int MPI_Testsome(int n, MPI_Request* r, int* out, int* idx, MPI_Status* st);
int MPI_Waitsome(int n, MPI_Request* r, int* out, int* idx, MPI_Status* st);
int MPI_Wait(MPI_Request* r, MPI_Status* st);
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st);
int MPI_Request_free(MPI_Request* r);
int MPI_Cancel(MPI_Request* r);
int MPI_Test_cancelled(const MPI_Status* st, int* f);
int MPI_Iprobe(int src, int tag, MPI_Comm m, int* flag, MPI_Status* st);
int MPI_Probe(int src, int tag, MPI_Comm m, MPI_Status* st);
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm m, MPI_Status* st);
int MPI_Sendrecv(const void* b, int n, MPI_Datatype t, int dst, int tag, void* b2, int n2, MPI_Datatype t2, int src, int tag2, MPI_Comm m, MPI_Status* st);
int MPI_Improbe(int src, int tag, MPI_Comm m, int* flag, MPI_Message* h, MPI_Status* st);
int MPI_Mprobe(int src, int tag, MPI_Comm m, MPI_Message* h, MPI_Status* st);
int MPI_Mrecv(void* b, int n, MPI_Datatype t, MPI_Message* h, MPI_Status* st);
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n);
int MPI_Get_elements(const MPI_Status* st, MPI_Datatype t, int* n);
int MPI_Type_size(MPI_Datatype t, int* n);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Barrier(MPI_Comm m);
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm m);
int MPI_Reduce(const void* b, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm m);
int MPI_Allreduce(const void* b, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm m);
int MPI_Gather(const void* b, int n, MPI_Datatype t, void* out, int, MPI_Datatype, int root, MPI_Comm m);
int MPI_Allgather(const void* b, int n, MPI_Datatype t, void* out, int, MPI_Datatype, MPI_Comm m);
#ifdef __cplusplus
}
#endif
