CONSTANTS NRand = 1
  Share = 30
  Many = 1
  Step = 10
INIT Init
NEXT Next
INVARIANTS IsCdf Hull Moments1
CHECK_DEADLOCK FALSE
