SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Equivariant Spectator Governed SelfInverse Conjugated
CHECK_DEADLOCK FALSE
