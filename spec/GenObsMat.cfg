SPECIFICATION GSpec
CONSTANT conf <- ConfObsMat
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
