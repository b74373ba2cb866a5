SPECIFICATION SmallSpec
VIEW SmallView
INVARIANTS Unique Lattice
PROPERTIES Independent Rejected
CHECK_DEADLOCK FALSE
