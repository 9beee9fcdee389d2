SPECIFICATION GSpec
CONSTANT conf <- ConfMatBig
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
