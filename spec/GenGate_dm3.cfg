SPECIFICATION GSpec
CONSTANTS
  conf <- GateConf
  What = "dm"
  MaxN = 3
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative
CHECK_DEADLOCK FALSE
