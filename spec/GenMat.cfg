SPECIFICATION GSpec
CONSTANT conf <- ConfMat
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
