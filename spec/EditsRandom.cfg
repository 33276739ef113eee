INIT Init
NEXT NextRandom
INVARIANT Out
CHECK_DEADLOCK FALSE
