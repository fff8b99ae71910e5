SPECIFICATION Spec
CONSTANT Clauses <- C13
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
