SPECIFICATION Spec
CONSTANT Clauses <- C18
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
