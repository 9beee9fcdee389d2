SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS CauchySchwarz Exchange
CHECK_DEADLOCK FALSE
