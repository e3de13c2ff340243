INIT Init
NEXT Next
INVARIANTS SameProduct SameDot Mats AddSub Ring
CHECK_DEADLOCK FALSE
