CONSTANT NS = 8
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
