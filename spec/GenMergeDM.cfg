SPECIFICATION GSpec
CONSTANT conf <- ConfMergeDM
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
