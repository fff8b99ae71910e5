SPECIFICATION Spec
CONSTANT Clauses <- C08
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
