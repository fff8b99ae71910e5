SPECIFICATION Spec
CONSTANT Clauses <- C12
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
