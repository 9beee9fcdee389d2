SPECIFICATION GSpec
CONSTANT conf <- ConfGradLong
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
