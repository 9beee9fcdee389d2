SPECIFICATION GSpec
CONSTANT conf <- ConfEvo
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
