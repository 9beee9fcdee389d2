SPECIFICATION Spec
INVARIANT TracePreserving
CHECK_DEADLOCK FALSE
