SPECIFICATION GSpec
CONSTANT conf <- ConfNoise
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
