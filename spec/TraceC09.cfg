SPECIFICATION Spec
CONSTANT Clauses <- C09
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
