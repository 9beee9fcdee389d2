SPECIFICATION GSpec
CONSTANTS
  conf <- GateConf
  What = "vec"
  MaxN = 3
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative
CHECK_DEADLOCK FALSE
