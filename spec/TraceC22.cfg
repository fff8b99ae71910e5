SPECIFICATION Spec
CONSTANT Clauses <- C22
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
