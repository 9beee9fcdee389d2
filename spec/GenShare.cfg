SPECIFICATION GSpec
CONSTANT conf <- ConfShare
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
