SPECIFICATION GSpec
CONSTANT conf <- ConfDM
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
