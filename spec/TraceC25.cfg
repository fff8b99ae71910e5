SPECIFICATION Spec
CONSTANT Verdict <- C25Verdict
CONSTANT Step <- C25Step
CONSTANT Begin <- C25Begin
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
