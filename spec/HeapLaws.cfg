INIT Init
NEXT Next
CONSTANT Thin = FALSE
CONSTANT Values <- Exact
INVARIANTS Transposition Multiplication Addition Powers Norms Writing Selecting Traversal Equality Vectors Extrema Diagonals
