SPECIFICATION Spec
CONSTANT Clauses <- C07
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
