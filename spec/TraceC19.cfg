SPECIFICATION Spec
CONSTANT Clauses <- C19
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
