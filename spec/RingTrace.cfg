SPECIFICATION Spec
CONSTANTS NK <- MaxK
 Threads <- Thr
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
