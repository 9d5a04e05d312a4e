CONSTANT Max = 110
INIT Init
NEXT Next
INVARIANTS CombInv Agree
CHECK_DEADLOCK FALSE
