SPECIFICATION GSpec
CONSTANT conf <- ConfGradNoise
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
