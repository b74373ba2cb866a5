SPECIFICATION JSpec
CONSTANTS Terms = 1 Workers = 1
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
