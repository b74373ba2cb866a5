SPECIFICATION Spec
CONSTANTS Terms = 7 Workers = 4
INVARIANTS NothingLost SameForAll
CHECK_DEADLOCK FALSE
