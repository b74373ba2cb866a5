SPECIFICATION JSpec
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
