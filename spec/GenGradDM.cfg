SPECIFICATION GSpec
CONSTANT conf <- ConfGradDM
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
