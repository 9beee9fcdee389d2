SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  N = 2
INVARIANTS Same Permuted Merged
CHECK_DEADLOCK FALSE
