/* Fake MPI for the deterministic simulator: every rank lives in one process.
 * A communicator handle denotes (communicator, rank); collectives call back into the
 * simulator (Python module mpi4py.MPI of this directory), which parks the calling rank. */
#ifndef R4PY_SIM_MPI_H
#define R4PY_SIM_MPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef int MPI_Group;
typedef int MPI_Request;
typedef long MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; } MPI_Status;

#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 16
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD (fakempi_world())
#define MPI_COMM_SELF (fakempi_self())
#define MPI_PROC_NULL (-2)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_INFO_NULL 0
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3

#define MPI_BYTE 1
#define MPI_CHAR 2
#define MPI_INT 3
#define MPI_LONG 4
#define MPI_LONG_LONG 5
#define MPI_LONG_LONG_INT 5
#define MPI_FLOAT 6
#define MPI_DOUBLE 7
#define MPI_UNSIGNED 8
#define MPI_UNSIGNED_LONG 9
#define MPI_SHORT 10
#define MPI_INT64_T 5
#define MPI_INT32_T 3
#define MPI_UNSIGNED_LONG_LONG 11

#define MPI_MAX 1
#define MPI_MIN 2
#define MPI_SUM 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 6

MPI_Comm fakempi_world(void);
MPI_Comm fakempi_self(void);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int color, int key, MPI_Comm*);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Dims_create(int nnodes, int ndims, int dims[]);
int MPI_Cart_create(MPI_Comm, int ndims, const int dims[], const int periods[], int reorder, MPI_Comm*);
int MPI_Cart_coords(MPI_Comm, int rank, int maxdims, int coords[]);
int MPI_Cart_rank(MPI_Comm, const int coords[], int* rank);
int MPI_Cart_get(MPI_Comm, int maxdims, int dims[], int periods[], int coords[]);
int MPI_Cartdim_get(MPI_Comm, int* ndims);
int MPI_Cart_shift(MPI_Comm, int direction, int disp, int* src, int* dest);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int root, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int root, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
double MPI_Wtime(void);
int MPI_Abort(MPI_Comm, int);
#ifdef __cplusplus
}
#endif
#endif
