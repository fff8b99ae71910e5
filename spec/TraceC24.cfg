SPECIFICATION Spec
CONSTANT Verdict <- C24Verdict
CONSTANT Step <- C24Step
CONSTANT Begin <- C24Begin
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
