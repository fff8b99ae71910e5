SPECIFICATION Spec
CONSTANT Clauses <- C04
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
