SPECIFICATION ShortSpec
INVARIANTS Derivable Blanks Parens Assigned
CHECK_DEADLOCK FALSE
