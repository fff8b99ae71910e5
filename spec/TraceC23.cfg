SPECIFICATION Spec
CONSTANT Verdict <- C23Verdict
CONSTANT Step <- C23Step
CONSTANT Begin <- C23Begin
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
