SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Noisy2 = FALSE
INVARIANTS NormPreserved StaysHermitian DiagonalNonNegative NormStationary HessSymmetric StateOfProgram
CHECK_DEADLOCK FALSE
