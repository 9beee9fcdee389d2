SPECIFICATION GSpec
CONSTANT conf <- ConfHessDM
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
