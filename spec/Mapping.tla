------------------------------ MODULE Mapping ------------------------------
(* The mapping of a plane for the plotting frontend: which keys there are,    *)
(* and how values given by the caller take precedence.                        *)
EXTENDS Sequences, Integers
Core == {"uid", "axes", "hyperbolic_axes", "max_angular_error", "min_angular_error", "strike", "dip", "rake", "disabled"}
FitKeys == {"center", "centered_array"}
Keys(kind, member) == Core \cup (IF kind \in {"fit", "group"} THEN FitKeys ELSE {})
                       \cup (IF kind = "group" THEN {"members"} ELSE {})
                       \cup (IF member = 1 THEN {"member_of"} ELSE {})
(* links between planes are facts, not decoration: they cannot be overridden *)
Links(kind, member) == (IF kind = "group" THEN {"members"} ELSE {}) \cup (IF member = 1 THEN {"member_of"} ELSE {})
Final(kind, member, given) == Keys(kind, member) \cup given
FromCaller(kind, member, given) == given \ Links(kind, member)
=============================================================================
