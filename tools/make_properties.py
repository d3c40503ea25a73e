#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Vector and view arithmetic equals elementwise arithmetic, in exactly its slots",
 "Every arithmetic operation on vectors and views (+, -, *, / with vectors and scalars, scaled Add/Sub/Set, assignment, the three-operand Add/Sub functions, swap of views) yields the elementwise mathematical result for every length, for double and for int elements. A modifying operation on a view changes exactly the viewed entries of the underlying storage and nothing else. Operators that build a new vector leave their operands unchanged.",
 ["inputs", "histories"], "All vectors of any length (including 0 and thousands of entries) and values, all windows into shared storage, all sequences of operations on them, operands that are the same vector included.",
 "tests/test_linalg.cpp runs each operator on one or two hand-written vectors of 3 to 5 entries and mostly prints the result; lengths, views into shared storage and operation sequences are not explored.",
 ["include/vectorview.hpp", "include/vector.hpp"], [("compound operators and Add/Sub/Set", "include/vectorview.hpp"), ("value operators", "include/vector.hpp")],
 ["entries of the storage behind the views"])

prop("C02", "Vector reductions, norms, statistics and comparisons are the mathematical ones",
 "For every vector, the inner product, L2 norm, sum, mean, Max, Min, AbsMax and AbsMin equal their mathematical definitions up to rounding; Normalize gives unit L2 norm and the same direction, SubAvg gives zero mean by subtracting the mean from each entry, and GetSubVector returns exactly the selected entries in the given order. Two vectors (or dense matrices) compare equal exactly when their sizes agree and all entries agree to within 1e-12. Randomize fills every entry with values in the requested range ([0, 1] by default), is a function of the seed when the seed is not negative, and draws anew otherwise.",
 ["inputs"], "All vectors of all sizes and values (double and int, views and owning vectors), all index lists, all seeds and ranges.",
 "The tests print these quantities or compare them for one vector of five entries; sizes, signs, extreme positions, ties and tolerance boundaries are not covered.",
 ["include/vectorview.hpp", "src/vectorview.cpp", "src/densematrix.cpp"], [("reductions", "include/vectorview.hpp"), ("Randomize, Normalize, SubAvg", "src/vectorview.cpp"), ("operator==", "include/vectorview.hpp, src/densematrix.cpp")])

prop("C03", "Containers and solvers have value semantics under any history",
 "A copy-constructed or copy-assigned object (Vector, BlockVector, DenseMatrix, SparseMatrix, CooMatrix, LilMatrix, BlockMatrix, solvers) equals its source and is independent of it: later changes to either are never visible in the other, and destroying one never affects the other. Moving or swapping transfers the complete value (sizes included), and objects that were overwritten, moved from, resized or self-assigned can be assigned to and used again with correct results.",
 ["histories"], "All sequences of construction, copy, move, swap, assignment, self-assignment, resizing, in-place modification and destruction over a pool of objects of each type.",
 "The tests copy and swap an object once each; interleavings of copies, moves, swaps, resizes and modifications are not explored.",
 ["include/vector.hpp", "include/blockvector.hpp", "src/densematrix.cpp", "include/sparsematrix.hpp", "include/coomatrix.hpp", "include/lilmatrix.hpp", "include/blockmatrix.hpp", "src/operator.cpp"],
 [("copy/move constructors, swap, assignment of each class", "include/*.hpp, src/*.cpp")],
 state=[("Vector::data_ and the view's pointer", "the view part of a Vector must always look at its own storage", "include/vector.hpp")])

prop("C04", "Valid API use never corrupts memory, leaks, or triggers undefined behaviour",
 "Any program that uses the public API within its documented preconditions (matching dimensions, indices in range) executes without out-of-bounds access, use after free, use of uninitialised state, undefined behaviour, abort, or leaked memory. This holds for empty, zero-row, zero-column, 1x1, rectangular and large operands alike.",
 ["programs", "histories", "inputs"], "All sequences of valid calls over pools of vectors, dense, sparse, COO, LIL and block objects, operators, solvers and files, of all shapes including degenerate ones.",
 "The tests exercise one fixed sequence of calls on small non-degenerate objects without any memory checking.",
 ["include/", "src/", "modules/sparsesolver/src/sparsesolve.cpp"], [("sizes and storage kept consistent by every class", "include/*.hpp, src/*.cpp")])

prop("C05", "Sparse matrix times vector (and transpose) equals the defined product",
 "For every CSR matrix A (any shape, empty rows or columns, unsorted column order, explicitly stored zeros, double or int entries) and every vector of matching size, Mult gives A x and MultAT gives A^T x, whatever the output contained before and through every overload (returned vector, resized vector, view into larger storage, operator*, the Operator interface, mixed int/double). Inputs and the matrix are unchanged and nothing outside the output is written.",
 ["inputs"], "All CSR matrices and vectors of matching size.",
 "The tests multiply one fixed small matrix by one vector; shapes, storage orders, stale outputs and mixed types are not explored.",
 ["include/sparsematrix.hpp", "src/operator.cpp"], [("Mult / MultAT templates and Operator overrides", "include/sparsematrix.hpp")])

prop("C06", "Sparse-sparse and sparse-dense matrix products equal the defined products",
 "For all sparse matrices A, B of matching shape, A.Mult(B) is a valid CSR matrix (row pointers monotone and complete, columns in range, no column twice in a row) representing the product A B, with a supplied or an internal workspace of any earlier content or size, and for mixed int/double element types. For dense B, Mult, MultAT and MultCT give A B, A^T B and (A B)^T in an output resized to the right shape whatever it held before.",
 ["inputs", "histories"], "All pairs of matrices of matching shape including zero-dimension and large ones; all histories of reusing one workspace for several products.",
 "The tests form one product of fixed small matrices and print it.",
 ["include/sparsematrix.hpp"], [("two-pass marker product", "include/sparsematrix.hpp SparseMatrix::Mult(const SparseMatrix&, std::vector<int>&)"), ("dense products", "include/sparsematrix.hpp")])

prop("C07", "Sparse structural operations preserve entries and produce valid matrices",
 "Transpose, SortIndices, GetSubMatrix, PermuteCols, ToDense, TransposeDense, GetDiag and the row accessors of a sparse matrix return exactly the entries their definition selects (for GetSubMatrix, entry (i,j) is A(rows[i], cols[j]); for PermuteCols, column c moves to perm[c]), as valid CSR. SortIndices leaves every row sorted and every entry with its value; transposing twice gives the matrix back; a workspace handed to GetSubMatrix can be reused for further extractions. Constructing from a diagonal, from sizes or from CSR arrays gives exactly that matrix.",
 ["inputs", "histories"], "All sparse matrices, all (distinct) row and column selections in any order including empty ones, repeated rows, all permutations, sequences of extractions sharing a workspace.",
 "The tests extract one submatrix and transpose one matrix of fixed values.",
 ["include/sparsematrix.hpp"], [("Transpose, SortIndices, GetSubMatrix, PermuteCols, ToDense, GetDiag", "include/sparsematrix.hpp")])

prop("C08", "Sparse elimination and diagonal updates change exactly the addressed entries",
 "EliminateRow, EliminateCol (by index or by marker), EliminateRowCol (by index or by marker) set exactly the stored entries of the addressed rows and columns to zero, EliminateRowCol sets stored diagonal entries of eliminated rows to one, and every other entry and the sparsity structure are unchanged. EliminateCol with x and b additionally subtracts, for every row, A_ij x_j over the marked columns from b. AddDiag adds to exactly the stored diagonal entries, and EliminateZeros removes exactly the stored entries of absolute value at most the tolerance, leaving the others in order.",
 ["inputs", "histories"], "All sparse matrices, indices, markers (vector<int>, vector<bool>, views), x, b, diagonals, tolerances, and sequences of such edits.",
 "The tests eliminate one index in one fixed matrix and print the result.",
 ["include/sparsematrix.hpp"], [("Eliminate*, AddDiag", "include/sparsematrix.hpp")])

prop("C09", "Sparse and dense scaling and scalar operations act entrywise",
 "ScaleRows, ScaleCols, InverseScaleRows and InverseScaleCols of sparse and dense matrices multiply or divide entry (i,j) by the i-th or j-th factor, given as an array or (for sparse matrices) as a diagonal matrix; scaling and inverse scaling by the same factors cancel up to rounding. Scalar *=, /=, * and fill assignment act on every stored entry and on nothing else, Sum adds all stored entries and MaxNorm adds their absolute values.",
 ["inputs"], "All matrices of all shapes (rectangular and empty rows included) and all factors.",
 "The tests scale one small square matrix by one vector.",
 ["include/sparsematrix.hpp", "include/densematrix.hpp", "src/densematrix.cpp"], [("Scale*, InverseScale*, scalar operators, Sum, MaxNorm", "include/sparsematrix.hpp, include/densematrix.hpp")])

prop("C10", "COO assembly represents the sum of all added entries",
 "A coordinate matrix represents the sum of all entries added through any overload of Add and AddSym (single entries, dense blocks, vectors, indexable objects, scaled variants), duplicates being summed: ToDense, ToSparse (valid CSR, each position stored once), Mult and MultAT all agree with that matrix. Without an explicit size, the shape is determined by the largest indices added; PermuteRows, PermuteCols and PermuteRowsCols move entry (i,j) to the permuted position; EliminateZeros removes exactly the added entries of absolute value at most the tolerance.",
 ["histories", "inputs"], "All sequences of additions, permutations, eliminations and conversions, with and without explicit sizes, double and int entries, rectangular shapes.",
 "The tests add a handful of entries once and print the matrix.",
 ["include/coomatrix.hpp"], [("Add overloads, ToSparse, ToDense, Mult, MultAT, Permute*, EliminateZeros, FindSize", "include/coomatrix.hpp")])

prop("C11", "Linked-list assembly represents the sum of all added entries",
 "A linked-list matrix represents the sum of all entries added through Add (single or dense block) and AddSym, duplicates being summed: ToDense, ToSparse (valid CSR with sorted rows, each position stored once), Mult and MultAT all agree with that matrix, in any interleaving of additions and conversions. Without an explicit size the number of rows and columns is determined by the largest indices added, with one it is the given size; EliminateZeros removes exactly the added entries of absolute value at most the tolerance.",
 ["histories", "inputs"], "All sequences of additions, SetSize, eliminations and conversions, with and without explicit sizes, rectangular shapes.",
 "The tests add a few entries once and print the matrix.",
 ["include/lilmatrix.hpp"], [("Add, AddSym, ToSparse, ToDense, Mult, MultAT, EliminateZeros, FindSize", "include/lilmatrix.hpp")])

prop("C12", "Dense products and arithmetic equal the defined matrix operations",
 "For all dense matrices of matching shape (zero rows or columns included), Mult, MultAT, MultBT and MultABT give A B, A^T B, A B^T and A^T B^T, matrix-vector products (Mult, MultAT, all overloads and element types) give A x and A^T x, and +, -, scalar *, / (both sides), +=, -=, Transpose, Sum, Max, Min and GetDiag are the mathematical operations. Output arguments are resized and fully overwritten whatever they held before; inputs are unchanged.",
 ["inputs"], "All dense matrices and vectors of matching shape and all values; stale outputs of any shape.",
 "The tests multiply two fixed small matrices; rectangular and empty shapes, stale outputs and transposes of rectangular operands are not explored.",
 ["include/densematrix.hpp", "src/densematrix.cpp"], [("dgemm wrapper", "src/densematrix.cpp"), ("Mult/MultAT templates", "include/densematrix.hpp")])

prop("C13", "Dense row, column and block access touches exactly the addressed entries",
 "GetRow, GetCol, GetColView, GetSubMatrix (by range or by index lists), SetRow, SetCol, SetSubMatrix, SetSubMatrixTranspose, AddSubMatrix, HStack and element access of a dense matrix read or write exactly the addressed entries: what was set is read back, every other entry is unchanged, ranges are half open and may be empty, and column views alias the matrix. SetSize keeps the stored values it can and initialises the entries it adds.",
 ["inputs", "histories"], "All dense matrices, all in-range ranges and index lists (repeated indices included), all sequences of reads and writes.",
 "The tests read and write one fixed range of one fixed matrix.",
 ["include/densematrix.hpp", "src/densematrix.cpp"], [("Get/Set Row/Col/SubMatrix, AddSubMatrix, HStack, SetSize", "src/densematrix.cpp, include/densematrix.hpp")])

prop("C14", "Dense SVD, QR and inverse satisfy their defining identities",
 "For every dense matrix, SVD returns the min(m,n) singular values in descending order and replaces the matrix by left singular vectors: the columns are orthonormal and U U^T A = A for the part they span, with A^T u_i of length sigma_i. QR replaces an m by n matrix with orthonormal columns spanning its column space (the leading min(m,n) columns if it is wide), and Invert replaces every nonsingular matrix by its inverse up to a condition-number bound; the const variants leave the source unchanged.",
 ["inputs"], "All dense matrices of all shapes (tall, wide, square, rank deficient, empty, 1x1); for Invert all nonsingular ones.",
 "The tests factor one fixed small matrix and print the factors.",
 ["src/densematrix.cpp"], [("LAPACK wrappers SVD, QR, Invert", "src/densematrix.cpp")])

prop("C15", "Symmetric eigensolver returns the selected eigenpairs",
 "For every symmetric dense matrix, the eigensolver returns eigenvalues in ascending order with orthonormal eigenvectors satisfying A v = lambda v, each returned value being the true eigenvalue of its position. The number of eigenvectors returned is determined by the tolerance relative to the largest eigenvalue and by the maximum count (a negative one meaning no limit): at least one, and never more than the maximum or the matrix size. One solver object gives the same answers whatever matrices of other sizes it was used on before, and its input is not modified.",
 ["inputs", "histories"], "All symmetric matrices (repeated, zero, clustered, negative eigenvalues, diagonal, 1x1), all tolerances and maxima, all sequences of solves with one solver object.",
 "The tests run one fixed matrix with two settings.",
 ["include/eigensolver.hpp", "src/eigensolver.cpp"], [("tridiagonalisation, bisection, inverse iteration and selection rule", "src/eigensolver.cpp")],
 state=[("workspace vectors of EigenSolver", "kept between solves of different sizes", "include/eigensolver.hpp")])

prop("C16", "A block matrix behaves as the matrix combined from its blocks",
 "For every block matrix, with any offsets (zero-sized blocks included) and any subset of blocks set or replaced, Mult, MultAT, Transpose, Combine and dense printing agree with the single matrix obtained by placing every block at its offset, unset blocks being zero. Setting a block replaces exactly that block, and the reported sizes, offsets and blocks are the given ones.",
 ["inputs", "histories"], "All offsets, all block contents and shapes, all orders of setting and replacing blocks.",
 "The tests use one 2x2 block layout with fixed blocks.",
 ["include/blockmatrix.hpp"], [("Mult, MultAT, Transpose, Combine, SetBlock", "include/blockmatrix.hpp")])

prop("C17", "Block vectors and block operators act blockwise at their offsets",
 "The blocks of a block vector are windows onto consecutive, disjoint ranges of the whole vector determined by the offsets: writes through a block are visible in the whole and vice versa, and copies, moves and assignments keep that true for the new object alone. A block operator applied to a vector (Mult and MultAT) equals the sum over all set blocks placed at their offsets, unset blocks acting as zero, for any mix of operator types, through repeated applications.",
 ["inputs", "histories"], "All offsets (empty blocks included), all sequences of reads, writes, copies and assignments of block vectors; all grids of operators, all vectors.",
 "The tests use one fixed offset vector and one 2x2 operator grid.",
 ["include/blockvector.hpp", "include/blockoperator.hpp", "src/blockoperator.cpp"], [("GetBlock views", "include/blockvector.hpp"), ("BlockOperator::Mult/MultAT", "src/blockoperator.cpp")])

prop("C18", "All operators are linear, consistent across overloads, and adjoint-correct",
 "For every operator the library offers (dense, sparse, COO, LIL, block matrix, block operator, compositions used through the base class), the action is linear, does not modify its input, does not depend on the previous content of the output, repeats exactly, and all Mult/MultAT overloads agree. The transposed action is the adjoint: <A x, y> = <x, A^T y>, Rows and Cols give the output and input sizes, and InnerProduct(x, y) equals y^T A x. Different representations built from the same entries act identically.",
 ["inputs", "configurations"], "All operators of all types and shapes and all vectors.",
 "The tests apply a few operators to one vector and print the result.",
 ["include/operator.hpp", "src/operator.cpp", "include/sparsematrix.hpp", "include/densematrix.hpp", "include/coomatrix.hpp", "include/lilmatrix.hpp", "include/blockmatrix.hpp", "src/blockoperator.cpp"],
 [("Operator interface and overrides", "include/operator.hpp")])

prop("C19", "CG and preconditioned CG solve symmetric positive definite systems",
 "For every symmetric positive definite operator, right-hand side, initial guess and symmetric positive definite preconditioner, CG and PCG called with enough iterations return a finite vector whose residual meets the requested relative or absolute tolerance up to rounding, through the free functions and the solver class. With the default limits the answer is accurate to machine precision, and nothing is printed unless verbosity is requested. A right-hand side and guess that already satisfy the system are returned unchanged up to rounding. The right-hand side is never modified.",
 ["inputs", "configurations"], "All SPD systems of all sizes and moderate condition numbers, all preconditioners (none, diagonal, exact, dense SPD), right-hand sides (zero included), initial guesses (zero, random, exact), tolerances.",
 "The tests solve two fixed systems from one guess and compare printed residuals.",
 ["include/solvers.hpp", "src/solvers.cpp"], [("PCGSolver::Mult", "src/solvers.cpp")])

prop("C20", "MINRES and preconditioned MINRES solve symmetric, possibly indefinite systems",
 "For every symmetric nonsingular operator (positive definite or indefinite), right-hand side, initial guess and symmetric positive definite preconditioner, MINRES and PMINRES called with enough iterations return a finite vector whose residual meets the requested tolerance up to rounding, through the free functions and the solver classes. With the default limits the answer is accurate to machine precision, and nothing is printed unless verbosity is requested. A right-hand side and guess that already satisfy the system are returned unchanged up to rounding. The right-hand side is never modified.",
 ["inputs", "configurations"], "All symmetric nonsingular systems of moderate condition number (saddle point systems included), right-hand sides, guesses, SPD preconditioners, tolerances.",
 "The tests solve two fixed systems from one guess.",
 ["include/solvers.hpp", "src/solvers.cpp"], [("MINRESSolver::Mult, PMINRESSolver::Mult", "src/solvers.cpp")])

prop("C21", "Iterative solver objects are stateless between solves and respect their limits",
 "Applying one solver object (CG, PCG, MINRES, PMINRES) any number of times, in any order, after copies, moves, swaps, changes of tolerance, iteration limit or operator, gives for each call the result a fresh solver with the same settings gives. A solve never performs more than the set maximum number of iterations, and the number of iterations reported after a solve is between zero and that maximum and consistent with the number of operator applications made. Stopping later never gives a larger error in the norm the method minimises (A-norm of the error for CG, preconditioned residual norm for MINRES). A solve ends at the first iteration whose (preconditioned) residual norm meets the larger of the absolute tolerance and the relative tolerance times the initial norm, and a solve that overflowed leaves no trace in later ones.",
 ["histories", "configurations"], "All sequences of solves, setting changes, copies, moves and swaps over a pool of solvers, with counting operators.",
 "The tests run each solver once or twice and print the iteration count.",
 ["include/solvers.hpp", "src/solvers.cpp"], [("Solver base class settings and mutable workspaces", "include/solvers.hpp")],
 state=[("mutable workspace vectors and num_iter_", "reused by every solve", "include/solvers.hpp")])

prop("C22", "Matrices and vectors survive a write and read back through every text format",
 "Writing a vector or matrix with WriteText, WriteCSR, WriteCooList, WriteMTX, WriteAdjList or WriteTable and reading the file with the matching reader gives back the same shape (as far as the format stores it), sparsity structure and values, values to within a relative error of 1e-15 in every format that stores them. With the symmetric option, a symmetric matrix written through its upper or lower triangle reads back complete. A written Matrix Market file starts with the standard banner.",
 ["inputs"], "All vectors and matrices: rectangular, empty rows and columns, explicit zeros, unsorted rows, integer and double values of any magnitude including very large and very small ones.",
 "The tests read and write a few fixed files with values of few digits.",
 ["include/parser.hpp"], [("Write*/Read* pairs", "include/parser.hpp")])

prop("C23", "Binary files reproduce vectors and matrices bit for bit",
 "Writing any vector or sparse matrix in binary form and reading it back gives exactly the same shape, structure and values (bit for bit, including negative zero, infinities, NaN and subnormal numbers), for every element type, any size including empty, and files that are read-only. The file has the documented layout: sizes as 64-bit integers followed by the arrays, and nothing else.",
 ["inputs", "configurations"], "All vectors and sparse matrices of double, float and int, of all sizes.",
 "The tests write and read one fixed vector and matrix.",
 ["include/parser.hpp"], [("WriteBinary, ReadBinaryVect, ReadBinaryMat", "include/parser.hpp")])

prop("C24", "Readers interpret files exactly as their documented formats say",
 "For every file in the documented format, each reader (text vector, adjacency list, graph Laplacian list, coordinate list, table, CSR, Matrix Market with and without values) returns exactly the matrix the file describes: repeated entries are summed, the symmetric option or banner adds the mirrored off-diagonal entries, in Matrix Market files the banner line alone decides on symmetry (symmetric, or skew-symmetric with mirrored entries of opposite sign), comments and blank lines before the size line are skipped and indices start at one, table rows list column indices, and a graph list yields the graph Laplacian with zero row sums. Whitespace layout and a missing final newline do not matter. A file that cannot be opened raises std::runtime_error in every reader and writer.",
 ["inputs"], "All well-formed files of each format (any order of entries, duplicates, blank separators, comment blocks, missing final newline) and all unreadable or unwritable paths.",
 "The tests read the four small files shipped with the tests.",
 ["include/parser.hpp"], [("Read* functions", "include/parser.hpp")])

prop("C25", "Printed output shows every entry at its place",
 "Printing or streaming a vector, sparse, COO, linked-list or dense matrix, solver settings aside, writes the label followed by every entry exactly once with its indices (for coordinate output) or in its row and column (for dense output), and parsing the printed text gives the object back to the printed precision. Printing never changes the object.",
 ["inputs"], "All objects of all shapes (empty included), all labels, widths and precisions.",
 "The tests print to standard output without reading it.",
 ["include/vectorview.hpp", "include/sparsematrix.hpp", "include/coomatrix.hpp", "include/lilmatrix.hpp", "src/densematrix.cpp", "include/blockmatrix.hpp"], [("Print, PrintDense, operator<<", "include/*.hpp, src/densematrix.cpp")])

prop("C26", "Command-line parsing assigns every option its argument and reports mistakes",
 "For every declared set of options (named --name) and every argument list made of options and values, each option occurring on the command line takes the value that follows it (numbers in full, negative numbers included; strings in full, spaces included), every option not mentioned keeps its default, a boolean flag that occurs toggles its default, and the order of the options on the command line does not matter. The parser reports failure exactly when help was requested or a mistake was detected (an option entered twice on the command line, or declared twice), and the help and parameter listings name every declared option with its value and description.",
 ["inputs", "programs"], "All option sets of int, double, string and bool options and all argument lists.",
 "The tests parse one or two fixed argument lists.",
 ["include/argparser.hpp", "src/argparser.cpp"], [("ArgParser::Parse, IsGood, ShowHelp, ShowOptions", "src/argparser.cpp")])

prop("C27", "The timer reports consistent non-negative intervals for any sequence of clicks",
 "For every sequence of clicks, the interval between consecutive clicks is non-negative, at least as long as the time the caller certainly spent between them and at most the time that certainly elapsed around them; TotalTime is the time from the first to the last click and equals the sum of the intervals. The number of recorded intervals follows from the number of clicks.",
 ["histories"], "All sequences of clicks, waits and queries.",
 "The tests click a few times and print.",
 ["include/timer.hpp", "src/timer.cpp"], [("Timer::Click, operator[], TotalTime", "src/timer.cpp")])

prop("C28", "The direct sparse solver solves nonsingular systems over its whole lifetime",
 "For every nonsingular sparse matrix and right-hand side, the direct solver returns x with A x = b (Mult) and A^T x = b (MultAT) up to a condition-number bound, for any number of solves with one factorisation, also for unsorted rows and explicit zeros. Solvers can be copied, moved, swapped and assigned (default-constructed and 0x0 ones included) in any order: each keeps solving its own system, and the matrix given to it may change or disappear afterwards.",
 ["inputs", "histories"], "All nonsingular sparse matrices of moderate condition number, all right-hand sides, all histories of copies, moves, swaps, assignments and destructions of solver objects.",
 "The test solves one fixed system with one solver.",
 ["modules/sparsesolver/include/sparsesolve.hpp", "modules/sparsesolver/src/sparsesolve.cpp"], [("UMFPACK factorisation ownership", "modules/sparsesolver/src/sparsesolve.cpp")],
 state=[("numeric_", "owned UMFPACK factorisation handle", "modules/sparsesolver/include/sparsesolve.hpp")])

prop("C29", "Graph partitioning returns a complete, compact and reproducible partition",
 "For every graph (square sparse matrix with symmetric pattern) and every requested number of parts, partitioning assigns each vertex exactly one part, the labels used are exactly 0..k-1 without gaps where k is at most the requested number, and the same input always gives the same result. With contiguity requested on a connected graph every part is connected. On sizeable connected graphs every requested part is used and none is much larger than its share, and groups of vertices that are strongly tied inside (by edges, or by edge weights when weights are requested) and weakly to each other are not torn apart. Diagonal entries never influence the result and, unless weights are requested, neither do the values of the entries.",
 ["inputs", "configurations"], "All graphs (paths, grids, trees, random, disconnected, single vertex), all part counts and options.",
 "The test partitions one fixed small graph and prints the result.",
 ["modules/partition/include/partition.hpp"], [("Partition, MakeAdjacencyInfo, RemoveEmpty", "modules/partition/include/partition.hpp")])

prop("C30", "Run-time verification helpers throw exactly when they are meant to",
 "linalgcpp_verify throws std::runtime_error carrying the given message if and only if its condition is false, in every build configuration. linalgcpp_assert does the same in debug builds and never throws in release builds.",
 ["inputs", "configurations"], "All conditions and messages, debug and release builds.",
 "No test calls either helper.",
 ["include/utilities.hpp"], [("linalgcpp_assert, linalgcpp_verify", "include/utilities.hpp")])

prop("C31", "Damaged input files never corrupt memory, give invalid objects or pass in part",
 "Reading a file that was cut off at any byte or whose tokens were altered either raises an exception or returns a structurally valid object (row pointers monotone and complete, column indices in range); it never accesses memory out of bounds, never hangs and never returns a matrix whose arrays disagree. A text file that ends within an entry, holds something other than numbers where numbers belong, or (Matrix Market) has another number of entries than it announces is refused with an exception instead of being read in part.",
 ["fault_sequences", "inputs"], "All truncations and token-level corruptions of well-formed files of every format.",
 "The tests only read intact files.",
 ["include/parser.hpp", "include/sparsematrix.hpp"], [("Read* functions and the SparseMatrix constructor", "include/parser.hpp")])

prop("C32", "Distributed (MPI/Hypre) matrices agree with their serial counterparts",
 "Parallel matrices, vectors, operators and solvers of the parlinalgcpp module give, for every distribution of rows over processes, the same result as the serial operations on the assembled matrix: construction, products, transposes, sums, norms, scaling, splitting into subdomains, histories of copies, moves and swaps, conjugate gradients, preconditioners, smoothers and eigenvalues.  Objects own what they hold: nothing is leaked, freed twice or printed.",
 ["configurations", "inputs", "histories"], "All matrices, row distributions and process counts.",
 "Its tests need MPI and Hypre (they are not built here), use one matrix and one distribution on two ranks, and print results instead of judging them.",
 ["modules/parlinalgcpp/src", "modules/parlinalgcpp/include"], [("Hypre wrappers", "modules/parlinalgcpp/src/hypre_ops.cpp")])

prop("C33", "Threads using their own objects and shared constant ones do not interfere",
 "Operations on objects that no other thread uses, and reading operations (products, reductions, conversions, printing, writing to a file of one's own) on vectors and sparse, dense and block matrices shared by several threads, give bit for bit the results they give when run alone, in every interleaving and without data races. Objects that keep a workspace (iterative, direct and eigenvalue solvers, block operators) and the COO and linked-list builders need only work for one thread at a time.",
 ["schedules", "inputs"], "All interleavings of all operations of up to several threads on private objects and shared constant operands of any shape.",
 "Every test is single threaded.",
 ["include/", "src/", "modules/sparsesolver/src/sparsesolve.cpp"], [("no state outside of the objects: no static workspaces, generators or caches", "include/*.hpp, src/*.cpp")],
 ["results of each thread"])

prop("C34", "A failed file operation is reported and never taken for a success",
 "Every writer either leaves the complete file behind or throws, whatever byte the system refuses (full device, size limit, failing, cut short or interrupted writes), and every reader either returns what the whole file says or throws when the file cannot be opened or read (missing, a directory, no descriptor left, a read that fails anywhere before the last needed byte). Cut short and interrupted system calls that succeed in the end make no difference, a failed operation leaves no file open and can be repeated, and reading never changes the file.",
 ["faults", "inputs"], "All contents, all formats, a fault at any byte of the transfer, transient or permanent, and all kinds of paths.",
 "The tests read and write small files on a healthy disk.",
 ["include/parser.hpp"], [("readers and writers check the stream after the last transfer", "include/parser.hpp")],
 ["exceptions, file content, returned objects, open descriptors"])

prop("C35", "Separately compiled parts of a program agree on the library and link",
 "Every public header of the library and of the partition and sparse solver modules can be included by itself, together with any others and in any order, in any number of translation units of one program. Units compiled by different compilers (g++, clang++), for different language standards (C++14 to 20), with different optimisation and with or without NDEBUG link with each other and with a static or shared library compiled in yet another way; objects of the library made in one unit can be used, copied and destroyed in another, also while static objects are initialised, and every result is the one the same calls give in a single unit.",
 ["schedules", "inputs"], "All subsets and orders of headers, divisions into translation units, build configurations and uses of the public interface; C++14 or later.",
 "Every test is one translation unit that includes everything, built like the library.",
 ["include/linalgcpp.hpp", "include/utilities.hpp", "modules/partition/include/partition.hpp", "modules/sparsesolver/include/sparsesolve.hpp"], [("free functions and explicit specialisations defined in headers are inline", "include/utilities.hpp")],
 ["whether a program compiles, links and ends, and the results it prints"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
