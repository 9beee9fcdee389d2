SPECIFICATION GSpec
CONSTANT conf <- ConfSparse
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
