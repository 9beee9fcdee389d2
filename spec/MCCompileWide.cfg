SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  N = 3
INVARIANTS Same Permuted Merged
CHECK_DEADLOCK FALSE
