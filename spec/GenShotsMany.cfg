SPECIFICATION GSpec
CONSTANT conf <- ConfShotsMany
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
