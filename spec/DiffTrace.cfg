SPECIFICATION Spec
INVARIANT RefInt
INVARIANT IdxInt
CHECK_DEADLOCK FALSE
