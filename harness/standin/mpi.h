// Stand-in for MPI: the calls that parlinalgcpp and the stand-in for Hypre make (see standin.hpp)
#ifndef STANDIN_MPI_H
#define STANDIN_MPI_H
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
#define MPI_COMM_WORLD ((MPI_Comm) 0x44000000)
#define MPI_COMM_NULL ((MPI_Comm) 0x04000000)
#define MPI_CHAR ((MPI_Datatype) 1)
#define MPI_INT ((MPI_Datatype) 4)
#define MPI_DOUBLE ((MPI_Datatype) 8)
#define MPI_FLOAT ((MPI_Datatype) 104)
#define MPI_LONG ((MPI_Datatype) 108)
#define MPI_LONG_LONG ((MPI_Datatype) 118)
#define MPI_UNSIGNED ((MPI_Datatype) 114)
#define MPI_UNSIGNED_LONG ((MPI_Datatype) 128)
#define MPI_BYTE MPI_CHAR
#define MPI_MAX ((MPI_Op) 1)
#define MPI_MIN ((MPI_Op) 2)
#define MPI_SUM ((MPI_Op) 3)
#define MPI_PROD ((MPI_Op) 4)
#define MPI_LOR ((MPI_Op) 5)
#define MPI_LAND ((MPI_Op) 6)
#define MPI_SUCCESS 0
#define MPI_IN_PLACE ((void*) -1)
namespace MPI { const MPI_Datatype INT = MPI_INT, DOUBLE = MPI_DOUBLE; const MPI_Op SUM = MPI_SUM, MAX = MPI_MAX, MIN = MPI_MIN; }
int MPI_Init(int*, char***);
int MPI_Finalize();
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Barrier(MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
double MPI_Wtime();
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
#endif
