SPECIFICATION Spec
INVARIANTS NoPartial SuccessIsAll FailureIsSilent FaultSeen Out
PROPERTIES Ends
CHECK_DEADLOCK FALSE
