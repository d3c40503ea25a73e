// Stand-in for the part of Hypre 2.10 (double, int, no global partition) that parlinalgcpp uses (see standin.hpp)
#ifndef STANDIN_HYPRE_H
#define STANDIN_HYPRE_H
#include "mpi.h"
#include <stdlib.h>
#include <math.h>
#include <stdio.h>
#define HYPRE_NO_GLOBAL_PARTITION 1
typedef int HYPRE_Int;
typedef double HYPRE_Real;
typedef double HYPRE_Complex;
struct hypre_Solver_struct; typedef struct hypre_Solver_struct* HYPRE_Solver;
struct hypre_Matrix_struct; typedef struct hypre_Matrix_struct* HYPRE_Matrix;
struct hypre_Vector_struct; typedef struct hypre_Vector_struct* HYPRE_Vector;

typedef struct { HYPRE_Complex* data; HYPRE_Int* i; HYPRE_Int* j; HYPRE_Int num_rows, num_cols, num_nonzeros; HYPRE_Int* rownnz; HYPRE_Int num_rownnz, owns_data; } hypre_CSRMatrix;
#define hypre_CSRMatrixData(m) ((m)->data)
#define hypre_CSRMatrixI(m) ((m)->i)
#define hypre_CSRMatrixJ(m) ((m)->j)
#define hypre_CSRMatrixNumRows(m) ((m)->num_rows)
#define hypre_CSRMatrixNumCols(m) ((m)->num_cols)
#define hypre_CSRMatrixNumNonzeros(m) ((m)->num_nonzeros)
#define hypre_CSRMatrixRownnz(m) ((m)->rownnz)
#define hypre_CSRMatrixNumRownnz(m) ((m)->num_rownnz)
#define hypre_CSRMatrixOwnsData(m) ((m)->owns_data)

typedef struct { HYPRE_Complex* data; HYPRE_Int size, owns_data, num_vectors, multivec_storage_method, vecstride, idxstride; } hypre_Vector;
#define hypre_VectorData(v) ((v)->data)
#define hypre_VectorSize(v) ((v)->size)
#define hypre_VectorOwnsData(v) ((v)->owns_data)

typedef struct { MPI_Comm comm; HYPRE_Int global_size, first_index, last_index; HYPRE_Int* partitioning; hypre_Vector* local_vector; HYPRE_Int owns_data, owns_partitioning; } hypre_ParVector;
#define hypre_ParVectorComm(v) ((v)->comm)
#define hypre_ParVectorGlobalSize(v) ((v)->global_size)
#define hypre_ParVectorFirstIndex(v) ((v)->first_index)
#define hypre_ParVectorPartitioning(v) ((v)->partitioning)
#define hypre_ParVectorLocalVector(v) ((v)->local_vector)
#define hypre_ParVectorOwnsData(v) ((v)->owns_data)
#define hypre_ParVectorOwnsPartitioning(v) ((v)->owns_partitioning)

typedef struct { MPI_Comm comm; HYPRE_Int num_sends; HYPRE_Int* send_procs; HYPRE_Int* send_map_starts; HYPRE_Int* send_map_elmts; HYPRE_Int num_recvs; HYPRE_Int* recv_procs; HYPRE_Int* recv_vec_starts; void* send_mpi_types; void* recv_mpi_types; } hypre_ParCSRCommPkg;
#define hypre_ParCSRCommPkgComm(p) ((p)->comm)
#define hypre_ParCSRCommPkgNumSends(p) ((p)->num_sends)
#define hypre_ParCSRCommPkgSendProcs(p) ((p)->send_procs)
#define hypre_ParCSRCommPkgSendProc(p, i) ((p)->send_procs[i])
#define hypre_ParCSRCommPkgSendMapStarts(p) ((p)->send_map_starts)
#define hypre_ParCSRCommPkgSendMapStart(p, i) ((p)->send_map_starts[i])
#define hypre_ParCSRCommPkgSendMapElmts(p) ((p)->send_map_elmts)
#define hypre_ParCSRCommPkgSendMapElmt(p, i) ((p)->send_map_elmts[i])
#define hypre_ParCSRCommPkgNumRecvs(p) ((p)->num_recvs)
#define hypre_ParCSRCommPkgRecvProcs(p) ((p)->recv_procs)
#define hypre_ParCSRCommPkgRecvProc(p, i) ((p)->recv_procs[i])
#define hypre_ParCSRCommPkgRecvVecStarts(p) ((p)->recv_vec_starts)
#define hypre_ParCSRCommPkgRecvVecStart(p, i) ((p)->recv_vec_starts[i])
struct hypre_ParCSRCommHandle;

typedef struct
{
    MPI_Comm comm; HYPRE_Int global_num_rows, global_num_cols, first_row_index, first_col_diag, last_row_index, last_col_diag; hypre_CSRMatrix* diag; hypre_CSRMatrix* offd; HYPRE_Int* col_map_offd; HYPRE_Int* row_starts; HYPRE_Int* col_starts;
    hypre_ParCSRCommPkg* comm_pkg; hypre_ParCSRCommPkg* comm_pkgT; HYPRE_Int owns_data, owns_row_starts, owns_col_starts, num_nonzeros; HYPRE_Real d_num_nonzeros;
} hypre_ParCSRMatrix;
#define hypre_ParCSRMatrixComm(m) ((m)->comm)
#define hypre_ParCSRMatrixGlobalNumRows(m) ((m)->global_num_rows)
#define hypre_ParCSRMatrixGlobalNumCols(m) ((m)->global_num_cols)
#define hypre_ParCSRMatrixFirstRowIndex(m) ((m)->first_row_index)
#define hypre_ParCSRMatrixFirstColDiag(m) ((m)->first_col_diag)
#define hypre_ParCSRMatrixLastRowIndex(m) ((m)->last_row_index)
#define hypre_ParCSRMatrixLastColDiag(m) ((m)->last_col_diag)
#define hypre_ParCSRMatrixDiag(m) ((m)->diag)
#define hypre_ParCSRMatrixOffd(m) ((m)->offd)
#define hypre_ParCSRMatrixColMapOffd(m) ((m)->col_map_offd)
#define hypre_ParCSRMatrixRowStarts(m) ((m)->row_starts)
#define hypre_ParCSRMatrixColStarts(m) ((m)->col_starts)
#define hypre_ParCSRMatrixCommPkg(m) ((m)->comm_pkg)
#define hypre_ParCSRMatrixOwnsData(m) ((m)->owns_data)
#define hypre_ParCSRMatrixOwnsRowStarts(m) ((m)->owns_row_starts)
#define hypre_ParCSRMatrixOwnsColStarts(m) ((m)->owns_col_starts)
#define hypre_ParCSRMatrixNumNonzeros(m) ((m)->num_nonzeros)
#define hypre_ParCSRMatrixNumRows(m) (hypre_CSRMatrixNumRows(hypre_ParCSRMatrixDiag(m)))
#define hypre_ParCSRMatrixNumCols(m) (hypre_CSRMatrixNumCols(hypre_ParCSRMatrixDiag(m)))
typedef hypre_ParCSRMatrix* HYPRE_ParCSRMatrix;
typedef hypre_ParVector* HYPRE_ParVector;
typedef HYPRE_Int (*HYPRE_PtrToSolverFcn)(HYPRE_Solver, HYPRE_Matrix, HYPRE_Vector, HYPRE_Vector);
typedef HYPRE_Int (*HYPRE_PtrToParSolverFcn)(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);

// memory
void* standin_calloc(size_t n, size_t size);
void standin_free(void* p);
#define hypre_CTAlloc(type, count) ((type*) standin_calloc((size_t) (count), sizeof(type)))
#define hypre_TAlloc(type, count) ((type*) standin_calloc((size_t) (count), sizeof(type)))
#define hypre_TFree(ptr) (standin_free((void*) (ptr)), ptr = NULL)
#define hypre_NumThreads() 1
#define hypre_NumActiveThreads() 1
#define hypre_GetThreadNum() 0
extern HYPRE_Int hypre__global_error;
#define hypre_error_flag hypre__global_error
#define hypre_error_in_arg(i) (hypre__global_error |= 4 | ((i) << 3))
#define hypre_MPI_Comm_size MPI_Comm_size
#define hypre_MPI_Comm_rank MPI_Comm_rank
#define hypre_max(a, b) (((a) < (b)) ? (b) : (a))
#define hypre_min(a, b) (((a) < (b)) ? (a) : (b))
#define hypre_abs(a) (((a) > 0) ? (a) : -(a))
HYPRE_Int HYPRE_AssumedPartitionCheck();
HYPRE_Int hypre_BinarySearch(HYPRE_Int* list, HYPRE_Int value, HYPRE_Int list_length);

hypre_ParVector* hypre_ParVectorCreate(MPI_Comm, HYPRE_Int global_size, HYPRE_Int* partitioning);
HYPRE_Int hypre_ParVectorInitialize(hypre_ParVector*);
HYPRE_Int hypre_ParVectorDestroy(hypre_ParVector*);
HYPRE_Int hypre_ParVectorSetDataOwner(hypre_ParVector*, HYPRE_Int);
HYPRE_Int hypre_ParVectorSetPartitioningOwner(hypre_ParVector*, HYPRE_Int);
HYPRE_Int hypre_SeqVectorSetDataOwner(hypre_Vector*, HYPRE_Int);

hypre_ParCSRMatrix* hypre_ParCSRMatrixCreate(MPI_Comm, HYPRE_Int global_num_rows, HYPRE_Int global_num_cols, HYPRE_Int* row_starts, HYPRE_Int* col_starts, HYPRE_Int num_cols_offd, HYPRE_Int num_nonzeros_diag, HYPRE_Int num_nonzeros_offd);
HYPRE_Int hypre_ParCSRMatrixDestroy(hypre_ParCSRMatrix*);
HYPRE_Int hypre_ParCSRMatrixSetNumNonzeros(hypre_ParCSRMatrix*);
HYPRE_Int hypre_CSRMatrixDestroy(hypre_CSRMatrix*);
HYPRE_Int hypre_CSRMatrixSetRownnz(hypre_CSRMatrix*);
HYPRE_Int hypre_CSRMatrixReorder(hypre_CSRMatrix*);
HYPRE_Int hypre_MatvecCommPkgCreate(hypre_ParCSRMatrix*);
HYPRE_Int hypre_MatvecCommPkgDestroy(hypre_ParCSRCommPkg*);
hypre_ParCSRCommHandle* hypre_ParCSRCommHandleCreate(HYPRE_Int job, hypre_ParCSRCommPkg*, void* send_data, void* recv_data);
HYPRE_Int hypre_ParCSRCommHandleDestroy(hypre_ParCSRCommHandle*);
hypre_CSRMatrix* hypre_ParCSRMatrixExtractBExt(hypre_ParCSRMatrix* B, hypre_ParCSRMatrix* A, HYPRE_Int data);
HYPRE_Int hypre_ParCSRMatrixMatvec(HYPRE_Complex alpha, hypre_ParCSRMatrix* A, hypre_ParVector* x, HYPRE_Complex beta, hypre_ParVector* y);
HYPRE_Int hypre_ParCSRMatrixMatvecT(HYPRE_Complex alpha, hypre_ParCSRMatrix* A, hypre_ParVector* x, HYPRE_Complex beta, hypre_ParVector* y);

HYPRE_Int hypre_ParCSRRelax(hypre_ParCSRMatrix* A, hypre_ParVector* f, HYPRE_Int relax_type, HYPRE_Int relax_times, HYPRE_Real* l1_norms, HYPRE_Real relax_weight, HYPRE_Real omega, HYPRE_Real max_eig_est, HYPRE_Real min_eig_est, HYPRE_Int cheby_order, HYPRE_Real cheby_fraction, hypre_ParVector* u, hypre_ParVector* v, hypre_ParVector* z);

HYPRE_Int HYPRE_ParCSRPCGCreate(MPI_Comm, HYPRE_Solver*);
HYPRE_Int HYPRE_ParCSRPCGDestroy(HYPRE_Solver);
HYPRE_Int HYPRE_ParCSRPCGSetup(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);
HYPRE_Int HYPRE_ParCSRPCGSolve(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);
HYPRE_Int HYPRE_ParCSRPCGSetPrecond(HYPRE_Solver, HYPRE_PtrToParSolverFcn precond, HYPRE_PtrToParSolverFcn precond_setup, HYPRE_Solver precond_solver);
HYPRE_Int HYPRE_ParCSRPCGSetPrintLevel(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_ParCSRPCGSetTol(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_ParCSRPCGSetMaxIter(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_PCGSetTol(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_PCGSetMaxIter(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_ParCSRDiagScale(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);
HYPRE_Int HYPRE_ParCSRDiagScaleSetup(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);

HYPRE_Int HYPRE_BoomerAMGCreate(HYPRE_Solver*);
HYPRE_Int HYPRE_BoomerAMGDestroy(HYPRE_Solver);
HYPRE_Int HYPRE_BoomerAMGSetup(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);
HYPRE_Int HYPRE_BoomerAMGSolve(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);
HYPRE_Int HYPRE_BoomerAMGSetCoarsenType(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetAggNumLevels(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetRelaxType(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetNumSweeps(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetStrongThreshold(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_BoomerAMGSetInterpType(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetPMaxElmts(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetMaxLevels(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetPrintLevel(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetMaxIter(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetTol(HYPRE_Solver, HYPRE_Real);

HYPRE_Int HYPRE_ParaSailsCreate(MPI_Comm, HYPRE_Solver*);
HYPRE_Int HYPRE_ParaSailsDestroy(HYPRE_Solver);
HYPRE_Int HYPRE_ParaSailsSetup(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);
HYPRE_Int HYPRE_ParaSailsSolve(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);
HYPRE_Int HYPRE_ParaSailsSetParams(HYPRE_Solver, HYPRE_Real thresh, HYPRE_Int nlevels);
HYPRE_Int HYPRE_ParaSailsSetFilter(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_ParaSailsSetSym(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_ParaSailsSetLoadbal(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_ParaSailsSetReuse(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_ParaSailsSetLogging(HYPRE_Solver, HYPRE_Int);

// eigenvalues
typedef struct { void* (*MatvecCreate)(void*, void*); HYPRE_Int (*Matvec)(void*, HYPRE_Complex, void*, void*, HYPRE_Complex, void*); HYPRE_Int (*MatvecDestroy)(void*); void* (*MatMultiVecCreate)(void*, void*); HYPRE_Int (*MatMultiVec)(void*, HYPRE_Complex, void*, void*, HYPRE_Complex, void*); HYPRE_Int (*MatMultiVecDestroy)(void*); } HYPRE_MatvecFunctions;
typedef struct { void* (*CreateVector)(void*); HYPRE_Int (*DestroyVector)(void*); } mv_InterfaceInterpreter;
typedef struct { long numVectors; HYPRE_Int* mask; void** vector; HYPRE_Int ownsVectors, ownsMask; mv_InterfaceInterpreter* interpreter; } mv_TempMultiVector;
struct mv_MultiVector; typedef mv_MultiVector* mv_MultiVectorPtr;
mv_MultiVectorPtr mv_MultiVectorCreateFromSampleVector(void* interpreter, HYPRE_Int n, void* sample);
void* mv_MultiVectorGetData(mv_MultiVectorPtr);
void mv_MultiVectorDestroy(mv_MultiVectorPtr);
HYPRE_Int HYPRE_ParCSRSetupInterpreter(mv_InterfaceInterpreter*);
HYPRE_Int HYPRE_ParCSRSetupMatvec(HYPRE_MatvecFunctions*);
HYPRE_Int HYPRE_LOBPCGCreate(mv_InterfaceInterpreter*, HYPRE_MatvecFunctions*, HYPRE_Solver*);
HYPRE_Int HYPRE_LOBPCGDestroy(HYPRE_Solver);
HYPRE_Int HYPRE_LOBPCGSetup(HYPRE_Solver, HYPRE_Matrix, HYPRE_Vector, HYPRE_Vector);
HYPRE_Int HYPRE_LOBPCGSetPrecond(HYPRE_Solver, HYPRE_PtrToSolverFcn precond, HYPRE_PtrToSolverFcn precond_setup, HYPRE_Solver precond_solver);
HYPRE_Int HYPRE_LOBPCGSetPrintLevel(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_LOBPCGSetTol(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_LOBPCGSetMaxIter(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_LOBPCGSolve(HYPRE_Solver, mv_MultiVectorPtr constraints, mv_MultiVectorPtr x, HYPRE_Real* evals);
#endif
