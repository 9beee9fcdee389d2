SPECIFICATION GSpec
CONSTANTS
  conf <- GateConf
  What = "mat"
  MaxN = 3
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative
CHECK_DEADLOCK FALSE
