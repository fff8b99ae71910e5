SPECIFICATION Spec
CONSTANT Verdict <- C05Verdict
CONSTANT Step <- C05Step
CONSTANT Begin <- C05Begin
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
