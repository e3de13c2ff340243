#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
MATS = ["array_2d_row_real_matrix.go", "block_real_matrix.go", "diagonal_matrix.go"]

p("C01", "Matrix entries read back exactly what was last written",
  "In every kind of matrix and of every size, each entry reads back the value last written to it by any route (single entry, increment, scaling of an entry, row, column, row or column vector or matrix, submatrix), and every reading route (entry, row, column, row or column vector or matrix, submatrix, full copy of the data) returns those same values. A write changes the entries it names and no other entry of that matrix.",
  ["inputs", "histories"], "all matrix kinds and shapes (in particular shapes and ranges that straddle the internal 52x52 blocks), all positions, all finite sequences of writes and reads",
  "The tests write a few entries of a few fixed matrices, mostly by one route and mostly below the block size; mixing routes, partial blocks and writes that straddle a block boundary are a product of choices they sample a handful of times.",
  MATS, [("block index arithmetic", "block_real_matrix.go (At, SetEntry, SetSubMatrix, SetRow*, SetColumn*, RowAt, ColumnAt, SubMatrix)"), ("row array access", "array_2d_row_real_matrix.go"), ("diagonal access", "diagonal_matrix.go")],
  ["return values of the accessors after each call"], [("entries", "the real values a matrix holds", "data / blocks fields")])

p("C02", "Matrix arithmetic computes its textbook definition",
  "Addition, subtraction, adding or multiplying by a scalar, product, pre-product, product with a vector or an array from either side, transpose, trace, integer power, Frobenius norm and maximum absolute column sum return exactly the result their definition prescribes (whenever that result is exactly representable), for every combination of matrix kinds and every shape. Operands are left unchanged.",
  ["inputs", "configurations"], "all pairs of matrix kinds (including implementations of the interface that are not the library's own), all compatible shapes, all entry values including infinities and NaN for dense kinds, all exponents",
  "Every method has fast paths that depend on the kinds of both operands and, in the block kind, on how the shape falls on block borders; the tests multiply few shapes and rarely mix kinds.",
  MATS + ["real_matrix.go"], [("kind-specific fast paths", "array_2d_row_real_matrix.go, block_real_matrix.go: Add, Subtract, Multiply, Operate*, PreMultiply*"), ("binary powering", "real_matrix.go: Power"), ("norm visitors", "real_matrix.go: MatFrobeniusNorm, MatLInfNorm")],
  ["returned matrices, vectors and arrays", "operands after the call"])

p("C03", "Results are independent of the objects they were computed from",
  "A copy, an arithmetic result, an extracted row, column, submatrix, data array, vector or transposed matrix shares no storage with its operands: later writes to either side are never visible through the other. The only exceptions are the documented ones: an explicit reference to the internal data, and construction from a caller's array with copying switched off, where both sides keep seeing each other's writes.",
  ["histories"], "all finite histories of constructions, operations and writes over a set of live matrices, vectors and plain arrays",
  "Sharing shows only when an object is written after another one was derived from it; the tests compute a result, compare it and drop it.",
  MATS + ["array_real_vector.go", "real_matrix.go", "real_vector.go"], [("defensive copying", "copyIn/copyOut, Copy, Data, ToArray, NewArrayRealVectorCopy"), ("reference construction", "NewArray2DRowRealMatrixFromSlices(_, false), NewArrayRealVector(_, false), NewDiagonalMatrix(_, false), DataRef")],
  ["contents of every live object after every call"], [("storage", "which live objects share one storage", "data slices")])

p("C04", "Invalid matrix requests are rejected without effect, valid ones are not",
  "A matrix request with an index outside the matrix, a selection that is empty or reversed, shapes that do not fit, missing or ragged data, or a negative exponent is refused with one of the library's own typed errors, and leaves every matrix, vector and array involved exactly as it was. A request whose arguments are in range and fit is never refused (for diagonal matrices: unless its result could not be diagonal).",
  ["inputs", "histories"], "all matrix kinds, all methods that take indices, shapes or data, all argument values on both sides of every limit",
  "Each limit of each method of each kind has its own check; tests exercise some of them with one bad value each and never look at what a refused call left behind.",
  MATS + ["real_matrix.go", "error.go"], [("index and shape checks", "real_matrix.go: checkMatrixIndex, checkRowIndex, checkColumnIndex, checkSubMatrixIndex, checkAdditionCompatible, checkMultiplicationCompatible"), ("typed errors", "error.go")],
  ["recovered panics and returned errors", "contents of every live object after the refused call"])

p("C05", "Matrix traversals visit each selected entry exactly once, in the promised order",
  "A traversal announces the shape and the selected range once at the start, then presents every entry of the range exactly once with its position and the value it has at that moment (also when the visitor itself has changed it) and nothing outside the range, and at the end returns what the visitor returns; row order is by rows then columns, column order by columns then rows. An updating traversal stores exactly the value the visitor returned for each entry, before it goes on to the next, and the other entries keep theirs. A visitor that panics is not called again and its panic reaches the caller; what it returned before is stored, and nothing else is changed. A range that is refused is refused before the visitor is told anything.",
  ["inputs"], "all matrix kinds, shapes and ranges (in particular ranges within, straddling and aligned with internal blocks), all traversal kinds",
  "Tests traverse a few whole matrices and a few ranges with one visitor; ranges and shapes that fall on block borders differently take different paths.",
  MATS + ["real_matrix_visitor.go"], [("traversal loops", "WalkIn* of every kind; block iteration in block_real_matrix.go")],
  ["sequence of visitor calls", "matrix contents after the traversal"])

p("C06", "A diagonal matrix behaves as the dense matrix it stands for and stays diagonal",
  "Every observation of a diagonal matrix with finite entries equals that of the dense matrix with the same diagonal and zeros elsewhere, and no request ever makes an off-diagonal entry non-zero: one that would is refused and changes nothing. Its inverse has the reciprocal diagonal, and is refused exactly when some diagonal entry is within the given threshold of zero.",
  ["inputs", "histories"], "all dimensions, all diagonals, all histories of requests, all operand kinds",
  "Tests check single calls on one three-element diagonal; they do not check what a refused write leaves, nor mixed-kind arithmetic over histories.",
  ["diagonal_matrix.go"], [("off-diagonal guard", "diagonal_matrix.go: ensureZero"), ("diagonal-only arithmetic", "diagonal_matrix.go: Add, Subtract, Multiply, Operate, PreMultiply, Inverse, IsSingular")],
  ["accessors and results after each call"])

p("C07", "Vector operations compute their entrywise definition",
  "Reading, writing, filling, copying, appending, cutting out and replacing parts, adding, subtracting, entrywise multiplying and dividing, adding or multiplying by a constant, mapping and linear combination give exactly the entries their definition prescribes, for every length and every vector implementation, with the usual infinities and NaN. Operations that return a vector leave their operands unchanged; the in-place ones change the receiver and nothing else, also when an operand is the receiver itself.",
  ["inputs", "histories"], "all lengths, all positions and part lengths, all values, vectors of the library's and of other implementations, all histories of operations",
  "Tests use a handful of vectors of length 3 to 9 and one call each; overlap, foreign implementations and sequences are hardly reached.",
  ["array_real_vector.go", "real_vector.go"], [("entrywise loops and fast paths", "array_real_vector.go")],
  ["vector contents after each call", "returned vectors and values"])

p("C08", "Norms, distances, dot products, extrema and projections match their definition",
  "The dot product, the sum, Euclidean and maximum norms and distances, the cosine, the extrema and their positions (the last one among equal extrema; entries that are NaN are skipped), the unit vector and the projection agree with their mathematical definition to rounding, for every implementation and length, at every scale at which squares neither overflow nor vanish, and with the usual infinities and NaN. They do not change their arguments; a zero vector has no direction and mismatched lengths are refused with a typed error.",
  ["inputs"], "all vectors of all lengths, all sign and tie patterns",
  "Tests evaluate each measure on one or two fixed vectors with no ties, no zero vectors and one sign pattern.",
  ["real_vector.go"], [("iterator-based accumulations", "real_vector.go: Vec*, Min*, Max*, Projection, UnitVector")],
  ["returned values", "arguments after the call"])

p("C09", "Equality tells exactly whether two matrices or vectors have the same entries",
  "Two matrices are equal exactly when they have the same shape and the same entries, whatever kinds they are of; two vectors exactly when they have the same length and the same entries, where all vectors of one length containing a NaN are equal to each other. Equality is symmetric, never holds with something that is not a matrix (vector), and agrees after every change of either side.",
  ["inputs", "histories"], "all pairs of kinds, all shapes, a difference in any single position, NaN and infinities, all histories of writes before the comparison",
  "Tests compare a few equal and a few unequal pairs; a difference in one particular position, block or kind pair is not sampled.",
  MATS + ["array_real_vector.go"], [("entrywise comparison", "Equals of each kind")], ["returned truth values"])

p("C10", "Construction and selection produce exactly the requested matrix",
  "Every way to construct a matrix or vector (by size, from arrays with or without copying, from one column, from block-ordered data, identity, with a given diagonal, filled, concatenated, outer product) yields exactly the requested shape and entries, whatever size-dependent representation is chosen. Extracting or copying the part of a matrix given by a range or by lists of row and column positions (with repetition, in any order) yields exactly those entries and touches nothing else of a destination array.",
  ["inputs", "configurations"], "all shapes around the size at which the representation changes, all data, all ranges and selection lists",
  "Tests construct small matrices; the representation depends on the size and on block layout, and selection lists are sampled once or twice.",
  MATS + ["real_matrix.go", "array_real_vector.go"], [("factories", "real_matrix.go: NewRealMatrix*, SubMatrix, CopySubMatrix*, OuterProduct"), ("block layout", "block_real_matrix.go: NewBlockRealMatrixFromSlices, NewBlockRealMatrixFromBlockData, toBlocksLayout")],
  ["contents of the constructed object or destination"])

p("C11", "LU factorisation reproduces the matrix and decides singularity",
  "For every square matrix of moderate scale that is not singular, the factors satisfy P·A = L·U with P a permutation that agrees with the reported pivot order, L unit lower triangular with no entry larger than one in magnitude and U upper triangular, and the determinant is that of the matrix with the right sign. A singular matrix is recognised: its determinant is zero, it yields no factors, and solving or inverting is refused with a typed error.",
  ["inputs"], "all square matrices (decided on integer matrices of moderate scale with exact determinants, all sizes up to beyond one block, permuted, structured and singular ones)",
  "Tests factor two 3x3 matrices and two singular ones; pivot sequences, permutation parity and exact singularity are decided by the entries.",
  ["lu_decomposition.go"], [("partial pivoting", "lu_decomposition.go: NewLUDecompositionWithThreshold"), ("parity and determinant", "lu_decomposition.go: Determinant")],
  ["L, U, P, Pivot, Determinant, Solver"])

p("C12", "Cholesky accepts exactly the symmetric positive definite matrices, as L·Lᵀ",
  "A symmetric positive definite matrix is factored as L·Lᵀ with L lower triangular with positive diagonal, and its determinant is the square of the product of that diagonal; the two triangular factors are transposes of each other. A matrix that is not square, not symmetric (beyond the symmetry threshold) or not positive definite (some pivot at or below the positivity threshold) is refused with the corresponding typed error.",
  ["inputs"], "all square and non-square matrices of moderate scale, definite, semidefinite and indefinite, symmetric and not, all thresholds",
  "Tests use one definite 5x5 matrix and three refused ones; definiteness is decided by every leading minor.",
  ["cholesky_decomposition.go"], [("symmetry check and pivot test", "cholesky_decomposition.go: NewCholeskyDecomposition")], ["L, LT, Determinant, error status"])

p("C13", "Rectangular Cholesky finds the rank and a root of a semidefinite matrix",
  "For every symmetric positive semidefinite matrix other than zero the root has as many columns as the rank of the matrix, reports that number as rank, and multiplied by its own transpose gives the matrix back. A matrix that is not square, the zero matrix, and a matrix whose diagonal shows it not to be semidefinite are refused with a typed error.",
  ["inputs"], "all positive semidefinite matrices of moderate scale, all ranks, all orders of the diagonal entries, all thresholds",
  "Tests use four matrices; the pivot permutation depends on the order of the diagonal entries at every step.",
  ["rectangular_cholesky_decomposition.go"], [("diagonal pivoting", "rectangular_cholesky_decomposition.go: NewRectangularCholeskyDecompositionWithThreshold")], ["RootMatrix, Rank, error status"])

p("C14", "QR factorisation reproduces the matrix with an orthogonal factor",
  "For every matrix of every shape the factors satisfy A = Q·R with Q square and orthogonal, its transposed form its transpose, and R of the shape of A and upper triangular (zero below the diagonal). When R has no zero on its diagonal, the Householder vectors H are lower trapezoidal, each of a squared length twice its diagonal entry, and Q is the product of the reflections they give. A solver built on it reports non-singularity exactly when no diagonal entry of R is within the given threshold of zero.",
  ["inputs"], "all shapes (wide, tall, square, beyond one block), all ranks",
  "Tests factor four fixed matrices; reflections that degenerate for zero or already reduced columns are decided by the entries.",
  ["qr_decomposition.go"], [("Householder reflections", "qr_decomposition.go: performHouseholderReflection, R, QT")], ["Q, QT, R, H, Solver.IsNonSingular"])

p("C15", "Rank-revealing QR permutes columns so that the rank shows, and reports it",
  "For every matrix the factors satisfy A·P = Q·R with P a permutation, Q orthogonal and R upper triangular whose diagonal entries do not increase in magnitude. The reported rank, for a drop threshold between rounding and the smallest genuine drop, is the rank of the matrix, zero for a zero matrix; for any other threshold it is the first position where, as documented, the norm of the remaining bottom-right part over the norm of the previous one, times the norm of R, falls below the threshold. The Householder vectors H, where R has no zero on its diagonal, give Q. A solver built on it reports non-singularity exactly when no diagonal entry of R is within the given threshold of zero.",
  ["inputs"], "all shapes, all ranks, ties between column norms, thresholds from rounding to well above the entries",
  "Tests factor four fixed matrices; column order and rank depend on all column norms at every step.",
  ["rrqr_decomposition.go", "qr_decomposition.go"], [("column pivoting", "rrqr_decomposition.go: performHouseholderReflection"), ("norm drop test", "rrqr_decomposition.go: Rank")], ["Q, QT, R, P, H, Rank"])

p("C16", "Singular value decomposition is orthogonal, ordered and reproduces the matrix",
  "For every matrix of moderate scale and every shape A = U·S·Vᵀ with U and V having orthonormal columns (each given consistently in plain and transposed form) and S diagonal with non-negative, non-increasing singular values whose squares are the eigenvalues of AᵀA; norm, condition number and its inverse are the corresponding ratios, and the covariance is V·diag(1/s²)·Vᵀ over the singular values at or above the cut-off. The rank is the number of singular values that are not negligible relative to the largest, whatever the scale of the matrix.",
  ["inputs"], "all shapes, all ranks, repeated and zero singular values, powers-of-two scalings of the same matrix",
  "Tests decompose six fixed matrices; deflation and ordering paths are chosen by the values met during iteration.",
  ["singular_value_decomposition.go"], [("bidiagonal QR iteration", "singular_value_decomposition.go: NewSingularValueDecomposition"), ("negligibility threshold", "singular_value_decomposition.go: tol, Rank")], ["U, UT, S, V, VT, SingularValues, Norm, ConditionNumber, Rank, Covariance"])

p("C17", "Symmetric eigen decomposition is orthogonal, ordered and reproduces the matrix",
  "For every symmetric matrix of moderate scale (or symmetric tridiagonal one given by its diagonals) A·V = V·D with V orthogonal and D diagonal with the eigenvalues, which are real, in non-increasing order and are the roots of the characteristic polynomial with their multiplicity; the determinant is their product. The square root, when all eigenvalues are positive, is symmetric and squares to the matrix, and is otherwise refused with a typed error.",
  ["inputs"], "all symmetric matrices of moderate scale, repeated, zero, negative and widely spread eigenvalues, split (block diagonal) forms, all orders",
  "Tests use a few fixed matrices; sorting, deflation and splitting depend on the eigenvalues.",
  ["eigen_decomposition.go", "tridiagonal_transformer.go"], [("implicit QL iteration and sorting", "eigen_decomposition.go: findEigenVectors")], ["V, VT, D, RealEigenvalues, ImagEigenvalues, EigenvectorAt, Determinant, SquareRoot"])

p("C18", "Eigen decomposition of a general matrix satisfies A·V = V·D",
  "For every square matrix of moderate scale that is not symmetric, A·V = V·D where D carries each real eigenvalue on its diagonal and each complex conjugate pair as a 2x2 block, no eigenvector is zero, complex eigenvalues come in adjacent conjugate pairs and their presence is reported. The eigenvalues are the roots of the characteristic polynomial with their multiplicity and the determinant is their product. Building may fail only with the typed non-convergence error, and only when eigenvalues coincide.",
  ["inputs"], "all non-symmetric square matrices of moderate scale: real and complex spectra, companion, triangular, defective and permutation matrices",
  "Tests use a few fixed matrices; the shifts, deflations and the pairing depend on the spectrum.",
  ["eigen_decomposition.go", "schur_transformer.go", "hessenberg_transformer.go"], [("double-shift QR and back substitution", "schur_transformer.go: transform; eigen_decomposition.go: transformToSchur, findEigenVectorsFromSchur")], ["V, VT, D, RealEigenvalues, ImagEigenvalues, EigenvectorAt, HasComplexEigenvalues, Determinant"])

p("C19", "Solvers solve the system they were built for or refuse",
  "For every non-singular square system all solvers return, for a vector and column by column for a matrix of right-hand sides, the x with A·x = b, and an inverse with A·A⁻¹ = I; for a full-rank tall system the QR and singular value solvers return the least-squares solution, and for any matrix the singular value solver's inverse is the Moore-Penrose pseudo-inverse. Right-hand sides of the wrong height, singular systems (except for the singular value solver) and eigen solvers of complex spectra are refused with a typed error, right-hand sides are not modified, and the non-singularity report agrees with whether solving succeeds (the singular value solver, which always answers, reports it exactly for square matrices of full rank).",
  ["inputs"], "all square and tall systems of moderate scale and conditioning, all decompositions that offer a solver, one to more than one block of right-hand sides, vectors of any implementation",
  "Tests solve one fixed system per solver; the solvers process right-hand sides in blocks and take different paths for vector implementations.",
  ["lu_decomposition.go", "cholesky_decomposition.go", "qr_decomposition.go", "rrqr_decomposition.go", "singular_value_decomposition.go", "eigen_decomposition.go"], [("substitution loops", "SolveVector, SolveMatrix, Inverse of each solver"), ("refusals", "IsNonSingular and dimension checks of each solver")], ["SolveVector, SolveMatrix, Inverse, IsNonSingular"])

p("C20", "Hessenberg, Schur, tridiagonal and bidiagonal reductions are orthogonal",
  "The reduction to Hessenberg form gives A = P·H·Pᵀ with P orthogonal and H zero below the subdiagonal, the one to Schur form A = P·T·Pᵀ with T block upper triangular with blocks of size one and two, the one of a symmetric matrix to tridiagonal form A = Q·T·Qᵀ with T symmetric and tridiagonal with the reported diagonals, and the one to bidiagonal form A = U·B·Vᵀ with U, V orthogonal and B bidiagonal (upper for tall and square, lower for wide matrices). A matrix that is not square is refused where a square one is needed, and transposed forms are transposes. Building the Schur form may fail only with the typed non-convergence error, and only when eigenvalues coincide.",
  ["inputs"], "all shapes and sizes, matrices with zero, already reduced or repeated parts, powers-of-two scalings",
  "Tests reduce a few fixed matrices; reflections degenerate depending on the entries.",
  ["hessenberg_transformer.go", "schur_transformer.go", "tridiagonal_transformer.go", "bidiagonal_transformer.go"], [("Householder accumulation", "the transform methods and the lazy factor builders")], ["P, PT, H, T, Q, QT, U, B, V, MainDiagonalRef, SecondaryDiagonalRef"])

p("C21", "A decomposition is a snapshot: it depends on nothing but the matrix it was given",
  "Building a decomposition does not change the matrix, writing to the matrix afterwards does not change the decomposition, and every quantity it offers is the same whenever, however often and in whatever order the quantities are asked for and systems are solved. Writing to a factor it has handed out changes neither the determinant and other numbers it reports nor the solutions of LU, Cholesky and QR solvers. Equal matrices of different kinds have the same decompositions.",
  ["histories", "configurations"], "all histories of building, asking, solving and writing to the input matrix, over all decompositions and matrix kinds",
  "Quantities are built lazily and cached, and inputs may be referenced; tests ask for each once, in one order, and never write to the input afterwards.",
  ["lu_decomposition.go", "cholesky_decomposition.go", "qr_decomposition.go", "rrqr_decomposition.go", "singular_value_decomposition.go", "eigen_decomposition.go", "hessenberg_transformer.go", "schur_transformer.go", "tridiagonal_transformer.go", "bidiagonal_transformer.go", "rectangular_cholesky_decomposition.go"], [("copied input and lazily cached factors", "constructors and getters of each decomposition")], ["every getter and solver, in every order", "the input matrix"],
  [("caches", "factors built on first request", "cached* fields")])

p("C22", "Vector traversals and iteration present every selected entry once, in order",
  "A vector traversal announces length and range, presents each selected entry once in increasing order with the value it has at that moment (also when the visitor itself has changed it), stores what an updating visitor returns before going on and returns the visitor's final value; entries outside the range are neither presented nor changed; a visitor that panics is not called again, its panic reaches the caller, and only what it returned before is stored. An iterator presents every entry once in increasing order with its position and the value it has at that moment, tells when none is left, and refuses with a typed error to go further; an entry it has handed out keeps its position and value, whatever is asked or written later.",
  ["inputs", "histories"], "all lengths and ranges, all traversal kinds, all interleavings of iteration and writes",
  "Tests iterate a few fixed vectors without interleaved writes and few ranges.",
  ["array_real_vector.go", "real_vector.go", "real_vector_visitor.go"], [("traversal loops", "array_real_vector.go: WalkIn*"), ("iterator", "real_vector.go: entryIteratorImpl")], ["sequence of visitor calls and iterator results", "vector contents afterwards"])

p("C23", "Invalid vector requests are rejected without effect, valid ones are not",
  "A vector request with a position outside the vector, a part that does not fit or is of negative length, a reversed range, operands of different lengths, a missing array or vector, or a negative size is refused with one of the library's own typed errors, and leaves every vector and array involved as it was. A request on a non-empty part that fits is never refused.",
  ["inputs", "histories"], "all methods that take positions, ranges, lengths or operands, all argument values on both sides of every limit, all vector implementations",
  "Each method has its own checks; tests try one bad value for some and never look at what a refused call left behind.",
  ["array_real_vector.go", "real_vector.go", "error.go"], [("index and length checks", "array_real_vector.go: checkIndex, checkIndices, checkVectorDimensions")], ["recovered panics and returned errors", "contents after the refused call"])

p("C24", "A refused matrix or vector request is told a mistake it really makes",
  "When a matrix or vector call is refused, the kind of the error is that of a mistake the call makes (never that of one it does not make), its message is well formed, and the figures it carries are those of such a mistake: a position outside its limits with the limits 0 and size - 1 of the dimension it was checked against, the end of a reversed range with its beginning, a negative or non-positive number with the bound zero and whether zero itself is allowed, the two shapes or one of the two lengths that differ, a non-zero value that a diagonal matrix cannot hold.",
  ["inputs", "histories"], "all methods that can refuse, all combinations of wrong and right arguments on both sides of every limit, all implementations",
  "Tests check that some calls fail, never what the failure says; a swapped limit, dimension or operand in a check still fails.",
  ["error.go", "array_2d_row_real_matrix.go", "block_real_matrix.go", "diagonal_matrix.go", "array_real_vector.go", "real_matrix.go", "real_vector.go"], [("error constructors and accessors", "error.go"), ("checks", "array_2d_row_real_matrix.go: check*; array_real_vector.go: check*")], ["Status, Argument, Low, High, Min, Max, IsBoundAllowed, WrongDimensions, ExpectedDimensions and Error of the errors returned or panicked with"])

p("C25", "A refused decomposition or solver request is told a mistake it really makes",
  "When building a decomposition, asking it for a quantity or solving with it is refused, the kind of the error is that of a mistake really made: not square only for a matrix that is not, not symmetric only with the position of two entries that differ by more than the threshold, too small (not positive) only with the position and value of a pivot at or below the threshold (the first such pivot for a symmetric matrix given to Cholesky), wrong height only for a right-hand side of another height, singular only for a matrix without full column rank (a wide one: with dependent leading columns; for a general eigen decomposition: with dependent eigenvectors), unsupported only for a matrix that is not symmetric or (square root) not positive, too large a cut-off with the cut-off and the largest singular value. The message is well formed and the thresholds it carries are those in force.",
  ["inputs"], "all decompositions, asymmetric, indefinite, singular and non-square matrices with the mistake at every position, right-hand sides of all heights",
  "Tests check that one or two fixed matrices are refused, not what the refusal says.",
  ["error.go", "cholesky_decomposition.go", "rectangular_cholesky_decomposition.go", "lu_decomposition.go", "qr_decomposition.go", "singular_value_decomposition.go", "eigen_decomposition.go", "hessenberg_transformer.go", "schur_transformer.go", "tridiagonal_transformer.go"], [("checks of the matrix", "constructors"), ("checks of right-hand sides", "solvers")], ["Status, Argument, Min, Max, Row, Column, Threshold and Error of the errors returned or panicked with"])

p("C26", "Decompositions of any numbers come back, and their answers belong together",
  "Whatever floating-point numbers a matrix holds (NaN, infinities, numbers at the ends of the range or hundreds of orders of magnitude apart), and whatever the thresholds, building each decomposition, asking it each of its questions and solving with it comes back, with one of the documented errors or an answer of the promised shape, never an endless loop or a run-time panic; a question gets the same answer whenever it is asked, and from every decomposition of the same numbers, however they are stored; each column of a solution depends on its own column of the right-hand side alone; the matrix and the right-hand side are as before; and the forms of one answer agree exactly: each factor and its transpose, singular values and S and the norm, eigenvalues and D and whether there are complex ones, the eigenvectors one by one and V, the pivot and the permutation matrix, the rank and the width of the root, the triangles and bands and their zeros, and a solver that calls itself nonsingular solves and one that calls itself singular refuses.",
  ["inputs"], "all decompositions and their solvers, matrices of 1 to 26 rows of numbers from all families, any thresholds",
  "Tests use small matrices of ordinary numbers; loops that end on a comparison, and values kept in two forms, go wrong on the rest.",
  ["cholesky_decomposition.go", "rectangular_cholesky_decomposition.go", "lu_decomposition.go", "qr_decomposition.go", "rrqr_decomposition.go", "singular_value_decomposition.go", "eigen_decomposition.go", "hessenberg_transformer.go", "schur_transformer.go", "tridiagonal_transformer.go", "bidiagonal_transformer.go"], [("constructors", "iterations"), ("answers", "getters"), ("solvers", "Solve, Inverse, IsNonSingular")], ["every getter of every decomposition, bit by bit", "errors and panics", "time"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
