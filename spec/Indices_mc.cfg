SPECIFICATION SmallSpec
INVARIANTS Exchange Reported Protected Apart
CHECK_DEADLOCK FALSE
