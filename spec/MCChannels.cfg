SPECIFICATION Spec
INVARIANTS KrausAgree TraceKept Complete HermitianPreserving
CHECK_DEADLOCK FALSE
