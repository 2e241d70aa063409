SPECIFICATION Spec
CONSTANT MaxP = 16
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
