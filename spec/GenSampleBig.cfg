SPECIFICATION GSpec
CONSTANT conf <- ConfSampleBig
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
