SPECIFICATION GSpec
CONSTANT conf <- ConfBook
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
