CONSTANT DIM = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted1
