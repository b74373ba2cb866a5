SPECIFICATION Spec
INVARIANT MemoryInv
CHECK_DEADLOCK FALSE
