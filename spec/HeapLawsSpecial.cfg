INIT Init
NEXT Next
CONSTANT Thin = FALSE
CONSTANT Values <- Special
INVARIANTS Transposition Multiplication Addition Powers Norms Writing Selecting Traversal Equality Vectors Extrema Diagonals
