SPECIFICATION GSpec
CONSTANT conf <- ConfNoiseBig
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
