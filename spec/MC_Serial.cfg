CONSTANTS Depth = 2
  NRand = 4
  MaxDim = 40
INIT Init
NEXT Next
INVARIANTS Refused Kept
CHECK_DEADLOCK FALSE
