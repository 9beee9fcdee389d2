SPECIFICATION SSpec
CONSTANT conf <- SessConf
INVARIANTS Functional NoAlterationMeanwhile
PROPERTY CallsKeepStore
CHECK_DEADLOCK FALSE
