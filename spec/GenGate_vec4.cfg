SPECIFICATION GSpec
CONSTANTS
  conf <- GateConf
  What = "vec"
  MaxN = 4
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative
CHECK_DEADLOCK FALSE
