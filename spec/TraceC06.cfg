SPECIFICATION Spec
CONSTANT Clauses <- C06
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
