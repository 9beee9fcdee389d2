SPECIFICATION Spec
INVARIANT Answered
CHECK_DEADLOCK FALSE
