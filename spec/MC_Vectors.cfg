CONSTANTS NRand = 1
  NVec = 4
INIT Init
NEXT Next
INVARIANTS FactorOk DistOk Chain TotalOne MomentsOk Names
CHECK_DEADLOCK FALSE
ALIAS Shown
