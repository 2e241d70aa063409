SPECIFICATION Spec
CONSTANT MaxP <- MaxPid
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
