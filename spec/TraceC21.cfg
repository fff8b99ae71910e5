SPECIFICATION Spec
CONSTANT Clauses <- C21
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
