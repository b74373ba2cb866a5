SPECIFICATION McSpec
VIEW McView
INVARIANTS WellFormed AdjointTwice
PROPERTY OthersKeep
CHECK_DEADLOCK FALSE
