SPECIFICATION SSpec
CONSTANT conf <- ThreadConf
INVARIANTS Functional NoAlterationMeanwhile
PROPERTY CallsKeepStore
CHECK_DEADLOCK FALSE
