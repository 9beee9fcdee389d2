SPECIFICATION GSpec
CONSTANTS
  conf <- GateConf
  What = "many"
  MaxN = 5
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative
CHECK_DEADLOCK FALSE
