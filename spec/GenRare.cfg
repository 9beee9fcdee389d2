SPECIFICATION GSpec
CONSTANT conf <- ConfRare
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
