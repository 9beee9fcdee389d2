SPECIFICATION GSpec
CONSTANTS
  conf <- GateConf
  What = "noise"
  MaxN = 2
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative
CHECK_DEADLOCK FALSE
