SPECIFICATION GSpec
CONSTANT conf <- ConfShotGradNoise
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
