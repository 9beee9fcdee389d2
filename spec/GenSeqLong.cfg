SPECIFICATION GSpec
CONSTANT conf <- ConfSeqLong
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
