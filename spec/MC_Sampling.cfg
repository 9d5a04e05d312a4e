CONSTANTS Depth = 3
  Counts = {0, 1, 3}
INIT Init
NEXT Next
INVARIANTS Consumed OneAtATime NothingLostOrRepeated
CHECK_DEADLOCK FALSE
