CONSTANTS NRand = 30
  Share = 12
  Fine = TRUE
INIT Init
NEXT Next
INVARIANTS IsCdf TotalOne Tails
CHECK_DEADLOCK FALSE
