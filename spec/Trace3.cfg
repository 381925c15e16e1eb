CONSTANT DIM = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted1
