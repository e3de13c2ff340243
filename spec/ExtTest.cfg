INIT Init
NEXT Next
INVARIANT Ok
