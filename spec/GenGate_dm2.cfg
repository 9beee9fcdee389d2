SPECIFICATION GSpec
CONSTANTS
  conf <- GateConf
  What = "dm"
  MaxN = 2
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative
CHECK_DEADLOCK FALSE
