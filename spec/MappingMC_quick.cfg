SPECIFICATION Spec
CONSTANTS Given = {"name", "color", "strike", "dip", "uid", "axes", "disabled", "center", "centered_array", "hyperbolic_axes", "max_angular_error", "note", "rake", "min_angular_error", "members", "member_of"}
 MaxGiven = 2
INVARIANTS CoreAlways GivenAlways LinksKept Emit
CHECK_DEADLOCK FALSE
