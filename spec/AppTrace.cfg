SPECIFICATION Spec
CONSTANT Slack = 8000
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
