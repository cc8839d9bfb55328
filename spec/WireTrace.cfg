SPECIFICATION Spec
INVARIANTS IdsResolve StackSound DoneIsEmpty NeverPastEnd
CHECK_DEADLOCK FALSE
