SPECIFICATION GSpec
CONSTANT conf <- ConfSeqBig
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
