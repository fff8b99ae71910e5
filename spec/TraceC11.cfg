SPECIFICATION Spec
CONSTANT Verdict <- C11Verdict
CONSTANT Step <- C11Step
CONSTANT Begin <- C11Begin
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
