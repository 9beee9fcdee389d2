SPECIFICATION GSpec
CONSTANT conf <- ConfSample
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
