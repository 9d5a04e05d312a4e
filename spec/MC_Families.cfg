CONSTANTS NRand = 12
  Share = 40
  Fine = FALSE
INIT Init
NEXT Next
INVARIANTS IsCdf TotalOne Tails
CHECK_DEADLOCK FALSE
