SPECIFICATION Spec
INVARIANTS Out OnlyShown NothingUnapproved InOrder SuccessIsAll Bounded OneBatch RefusedNotRun Complete
PROPERTIES Ends AcceptedOnce
CHECK_DEADLOCK FALSE
