#pragma once
#include "mpi.h"
using MPI_Count = long long;
int MPIX_Send_x(const void*, MPI_Count, MPI_Datatype, int dest, int tag, MPI_Comm);
int MPIX_Recv_x(void*, MPI_Count, MPI_Datatype, int source, int tag, MPI_Comm, MPI_Status*);
