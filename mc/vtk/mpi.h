#pragma once
typedef int MPI_Comm;
#define MPI_COMM_WORLD 0
inline int &standin_rank() { static int r = 0; return r; }
inline int MPI_Comm_size(MPI_Comm, int *n) { *n = 4; return 0; }
inline int MPI_Comm_rank(MPI_Comm, int *r) { *r = standin_rank(); return 0; }
inline double MPI_Wtime() { return 1; }
