SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Noisy2 = TRUE
INVARIANTS GradShift HessShift
CHECK_DEADLOCK FALSE
