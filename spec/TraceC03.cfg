SPECIFICATION Spec
CONSTANT Clauses <- C03
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
