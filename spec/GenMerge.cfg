SPECIFICATION GSpec
CONSTANT conf <- ConfMerge
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
