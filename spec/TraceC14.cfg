SPECIFICATION Spec
CONSTANT Clauses <- C14
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
