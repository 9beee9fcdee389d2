SPECIFICATION MSpec
CONSTANTS
  MaxLen = 1
  Noisy2 = TRUE
  Shots = 3
INVARIANTS IsDistribution Unbiased Variance Within Certain
CHECK_DEADLOCK FALSE
