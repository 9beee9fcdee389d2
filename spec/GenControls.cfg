SPECIFICATION GSpec
CONSTANT conf <- ConfControls
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
