SPECIFICATION TSpec
CONSTANT NoValue = NoValue
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
