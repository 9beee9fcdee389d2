SPECIFICATION GSpec
CONSTANT conf <- ConfHess
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
