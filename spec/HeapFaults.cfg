SPECIFICATION TruthfulSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
