CONSTANTS Diag = {1, 2, 5}
 Off = {0, 1, 2, 3}
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
