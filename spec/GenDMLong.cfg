SPECIFICATION GSpec
CONSTANT conf <- ConfDMLong
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
