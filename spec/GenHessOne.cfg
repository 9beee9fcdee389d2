SPECIFICATION GSpec
CONSTANT conf <- ConfHessOne
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
