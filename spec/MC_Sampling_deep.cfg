CONSTANTS Depth = 4
  Counts = {0, 1, 2, 4}
INIT Init
NEXT Next
INVARIANTS Consumed OneAtATime NothingLostOrRepeated
CHECK_DEADLOCK FALSE
