SPECIFICATION GSpec
CONSTANT conf <- ConfEvoDM
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
