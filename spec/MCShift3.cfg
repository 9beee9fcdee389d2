SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Noisy2 = TRUE
INVARIANTS GradShift HessShift
CHECK_DEADLOCK FALSE
