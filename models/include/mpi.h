/* Declarations for the message-passing model used in the symbolic run (not used in native replays). */
#ifndef VF_MPI_H
#define VF_MPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Fint; typedef void* MPI_Request; typedef long MPI_Aint; typedef long MPI_Offset;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int count_; } MPI_Status;
#define MPI_COMM_NULL 0
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
int MPI_Comm_compare(MPI_Comm,MPI_Comm,int*);
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_SUCCESS 0
#define MPI_IN_PLACE ((void*)-1L)
#define MPI_BYTE 0x101
#define MPI_CHAR 0x102
#define MPI_INT 0x401
#define MPI_UNSIGNED 0x402
#define MPI_FLOAT 0x403
#define MPI_LONG 0x801
#define MPI_UNSIGNED_LONG 0x802
#define MPI_DOUBLE 0x803
#define MPI_LONG_LONG 0x804
#define MPI_INT32_T 0x401
#define MPI_INT64_T 0x801
#define MPI_UINT64_T 0x802
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_LAND 4
#define MPI_LOR 5
#define MPI_BAND 6
#define MPI_BOR 7
#define MPI_PROD 8
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_MULTIPLE 3
#define MPI_MAX_PROCESSOR_NAME 256
int MPI_Init(int*, char***); int MPI_Init_thread(int*, char***, int, int*); int MPI_Initialized(int*); int MPI_Finalized(int*); int MPI_Finalize(void); int MPI_Abort(MPI_Comm,int);
int MPI_Comm_size(MPI_Comm,int*); int MPI_Comm_rank(MPI_Comm,int*); int MPI_Comm_dup(MPI_Comm,MPI_Comm*); int MPI_Comm_free(MPI_Comm*); int MPI_Comm_split(MPI_Comm,int,int,MPI_Comm*);
MPI_Comm MPI_Comm_f2c(MPI_Fint); MPI_Fint MPI_Comm_c2f(MPI_Comm);
int MPI_Issend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*); int MPI_Isend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*); int MPI_Send(const void*,int,MPI_Datatype,int,int,MPI_Comm); int MPI_Ssend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Irecv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Recv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*); int MPI_Iprobe(int,int,MPI_Comm,int*,MPI_Status*); int MPI_Probe(int,int,MPI_Comm,MPI_Status*);
int MPI_Test(MPI_Request*,int*,MPI_Status*); int MPI_Wait(MPI_Request*,MPI_Status*); int MPI_Waitall(int,MPI_Request*,MPI_Status*); int MPI_Get_count(const MPI_Status*,MPI_Datatype,int*);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Allreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm); int MPI_Reduce(const void*,void*,int,MPI_Datatype,MPI_Op,int,MPI_Comm);
int MPI_Scan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm); int MPI_Exscan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Allgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm); int MPI_Gather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm); int MPI_Allgatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,MPI_Comm);
int MPI_Alltoall(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm); int MPI_Alltoallv(const void*,const int*,const int*,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,MPI_Comm);
double MPI_Wtime(void); int MPI_Get_processor_name(char*,int*);
#ifdef __cplusplus
}
#endif
#endif
