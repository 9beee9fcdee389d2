SPECIFICATION GSpec
CONSTANT conf <- ConfShotsDM
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric
CHECK_DEADLOCK FALSE
