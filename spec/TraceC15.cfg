SPECIFICATION Spec
CONSTANT Clauses <- C15
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
