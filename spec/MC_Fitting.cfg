CONSTANTS NRand = 6
  Depth = 2
  NLong = 8
INIT Init
NEXT Next
INVARIANTS OrderFree ScoreIsSlope FitIsBest
CHECK_DEADLOCK FALSE
