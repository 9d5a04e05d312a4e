CONSTANTS Depth = 4
  NRand = 60
  MaxDim = 64
INIT Init
NEXT Next
INVARIANTS Refused Kept
CHECK_DEADLOCK FALSE
