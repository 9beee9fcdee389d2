SPECIFICATION GSpec
CONSTANT conf <- ConfExpBig
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
