SPECIFICATION SmallSpec
VIEW SmallView
INVARIANT FallBack
PROPERTIES ScopesKeep Restores
CHECK_DEADLOCK FALSE
