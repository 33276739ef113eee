SPECIFICATION Spec
INVARIANTS Precedence RefusedIsUntouched UsableSucceeds OnlyApproved OnlyDatabasesOpened SuccessOpensAll Out
CHECK_DEADLOCK FALSE
