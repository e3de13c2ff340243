INIT Init
NEXT Next
CONSTANT Thin = TRUE
CONSTANT Values <- Special
INVARIANTS Transposition Multiplication Addition Powers Norms Writing Selecting Traversal Equality Vectors Extrema Diagonals
