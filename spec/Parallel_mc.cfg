SPECIFICATION SmallSpec
INVARIANTS InTurn Once Single
CHECK_DEADLOCK FALSE
