SPECIFICATION GSpec
CONSTANT conf <- ConfMergeLong
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
