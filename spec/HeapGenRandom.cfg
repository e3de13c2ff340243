INIT Init
NEXT Next
CONSTANTS
  Profile = "C03"
  Depth = 12
  Random = TRUE
  Wild = TRUE
INVARIANTS Sane Emit
