SPECIFICATION SmallSpec
INVARIANTS Field
CHECK_DEADLOCK FALSE
