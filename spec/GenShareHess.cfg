SPECIFICATION GSpec
CONSTANT conf <- ConfShareHess
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
