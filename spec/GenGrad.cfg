SPECIFICATION GSpec
CONSTANT conf <- ConfGrad
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
