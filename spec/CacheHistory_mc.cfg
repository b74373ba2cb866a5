SPECIFICATION McSpec
VIEW View
INVARIANTS TypeOK HeldWhileNeeded PersistentUntouched
PROPERTIES OnlyForward PersistentStays
CHECK_DEADLOCK FALSE
