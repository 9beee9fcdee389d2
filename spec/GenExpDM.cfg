SPECIFICATION GSpec
CONSTANT conf <- ConfExpDM
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
