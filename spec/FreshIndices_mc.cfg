SPECIFICATION SmallSpec
INVARIANTS Unlike Valid
CHECK_DEADLOCK FALSE
