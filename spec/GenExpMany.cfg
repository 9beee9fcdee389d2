SPECIFICATION GSpec
CONSTANT conf <- ConfExpMany
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
