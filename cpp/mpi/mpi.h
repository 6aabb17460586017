// The part of MPI that stempy uses, for ranks that are threads of one process (mpi_ranks.cpp).
#pragma once
#include <cstddef>
#include <cstdint>

using MPI_Comm = int;
using MPI_Datatype = int; // the size of an element
struct MPI_Status
{
  int MPI_SOURCE, MPI_TAG, MPI_ERROR;
};
#define MPI_COMM_WORLD 0
#define MPI_BYTE 0x101
#define MPI_CHAR 0x201
#define MPI_INT 0x304
#define MPI_UINT32_T 0x404
#define MPI_UINT64_T 0x508
#define MPI_INT64_T 0x608
#define MPI_FLOAT 0x704
#define MPI_DOUBLE 0x808
#define MPI_STATUS_IGNORE ((MPI_Status*)nullptr)
#define MPI_SUCCESS 0
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)

int MPI_Init(int*, char***);
int MPI_Initialized(int*);
int MPI_Finalize();
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Send(const void*, int, MPI_Datatype, int dest, int tag, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int source, int tag, MPI_Comm, MPI_Status*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int root, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int root, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int* counts, const int* displs, MPI_Datatype, int root, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int* counts, const int* displs, MPI_Datatype, MPI_Comm);
