SPECIFICATION Spec
CONSTANT Clauses <- C10
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
