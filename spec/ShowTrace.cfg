SPECIFICATION ShowSpec
INVARIANT RefInt
INVARIANT IdxInt
CHECK_DEADLOCK FALSE
