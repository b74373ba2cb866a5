SPECIFICATION SmallSpec
INVARIANTS Semiring Order
CHECK_DEADLOCK FALSE
