SPECIFICATION GSpec
CONSTANT conf <- ConfDMBig
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
