SPECIFICATION GSpec
CONSTANT conf <- ConfEvoGrad
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
