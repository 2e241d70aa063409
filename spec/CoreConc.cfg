SPECIFICATION Spec
CONSTANT MaxP = 8
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
