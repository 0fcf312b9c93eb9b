CONSTANT NS = 20
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
