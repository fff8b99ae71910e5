SPECIFICATION Spec
CONSTANT Clauses <- C01
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
