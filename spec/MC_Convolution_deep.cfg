CONSTANTS NRand = 1
INIT Init
NEXT Next
INVARIANTS MomentsAdd Confluent
CHECK_DEADLOCK FALSE
