SPECIFICATION SmallSpec
INVARIANTS Once Skips Folds
CHECK_DEADLOCK FALSE
