SPECIFICATION Spec
CONSTANT N = 3
CONSTANT MaxP = 12
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
