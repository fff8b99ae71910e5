SPECIFICATION Spec
CONSTANT Clauses <- C20
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
