SPECIFICATION GSpec
CONSTANT conf <- ConfSparseTiny
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
