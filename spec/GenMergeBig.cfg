SPECIFICATION GSpec
CONSTANT conf <- ConfMergeBig
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
