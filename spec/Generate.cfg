SPECIFICATION Spec
INVARIANTS Out OneTableEach OneIndexEach NoTwice KeysAreColumns
CHECK_DEADLOCK FALSE
