SPECIFICATION SmallSpec
VIEW SmallView
INVARIANT NoReserved
PROPERTIES Independent Shared Rejected Restores
CHECK_DEADLOCK FALSE
