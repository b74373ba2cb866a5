SPECIFICATION SmallSpec
INVARIANTS Signs Successor Loops
CHECK_DEADLOCK FALSE
