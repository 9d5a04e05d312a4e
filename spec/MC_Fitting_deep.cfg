CONSTANTS NRand = 16
  Depth = 3
  NLong = 20
INIT Init
NEXT Next
INVARIANTS OrderFree ScoreIsSlope FitIsBest
CHECK_DEADLOCK FALSE
