SPECIFICATION GSpec
CONSTANT conf <- ConfEvoHess
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
