SPECIFICATION Spec
CONSTANT Verdict <- C02Verdict
CONSTANT Step <- C02Step
CONSTANT Begin <- C02Begin
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
