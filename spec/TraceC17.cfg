SPECIFICATION Spec
CONSTANT Clauses <- C17
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
