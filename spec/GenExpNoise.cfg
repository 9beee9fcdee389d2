SPECIFICATION GSpec
CONSTANT conf <- ConfExpNoise
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
