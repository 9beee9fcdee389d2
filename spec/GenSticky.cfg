SPECIFICATION GSpec
CONSTANT conf <- ConfSticky
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
