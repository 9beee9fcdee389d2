SPECIFICATION GSpec
CONSTANT conf <- ConfMergeNoise
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
