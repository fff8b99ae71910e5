SPECIFICATION Spec
CONSTANT Clauses <- C16
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
