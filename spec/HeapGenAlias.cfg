INIT Init
NEXT Next
CONSTANTS
  Profile = "alias1"
  Depth = 2
  Random = FALSE
  Wild = FALSE
INVARIANTS Sane Emit
PROPERTIES Frame Fresh Entry Shape
