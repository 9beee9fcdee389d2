SPECIFICATION GSpec
CONSTANT conf <- ConfEvoGradDM
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
