SPECIFICATION GSpec
CONSTANT conf <- ConfShotGrad
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
