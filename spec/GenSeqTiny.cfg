SPECIFICATION GSpec
CONSTANT conf <- ConfSeqTiny
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
