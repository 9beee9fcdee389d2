SPECIFICATION GSpec
CONSTANT conf <- ConfShots
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
