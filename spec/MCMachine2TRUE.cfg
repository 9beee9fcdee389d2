SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Noisy2 = TRUE
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric StateOfProgram
CHECK_DEADLOCK FALSE
