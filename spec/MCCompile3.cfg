SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  N = 2
INVARIANTS Same Permuted Merged
CHECK_DEADLOCK FALSE
