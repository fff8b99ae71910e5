SPECIFICATION Spec
CONSTANT Clauses <- C26
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
