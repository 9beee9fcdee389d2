SPECIFICATION GSpec
CONSTANT conf <- ConfShotsRare
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
