INIT Init
NEXT Next
CONSTANTS
  Kinds = {"LU", "Chol", "RChol", "QR", "RRQR", "SVD", "Eigen", "Hess", "Schur", "Tri", "Bi"}
  Depth = 2
  Random = FALSE
INVARIANT Emit
PROPERTIES Fixed Latest
