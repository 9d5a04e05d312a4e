CONSTANTS NRand = 1
  Share = 20
  Many = 3
  Step = 5
INIT Init
NEXT Next
INVARIANTS IsCdf Hull Moments1
CHECK_DEADLOCK FALSE
