SPECIFICATION GSpec
CONSTANT conf <- ConfExp
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
