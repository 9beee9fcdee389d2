SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS CauchySchwarz Exchange
CHECK_DEADLOCK FALSE
