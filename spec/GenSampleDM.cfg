SPECIFICATION GSpec
CONSTANT conf <- ConfSampleDM
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
