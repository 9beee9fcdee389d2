SPECIFICATION GSpec
CONSTANT conf <- ConfSeq
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
