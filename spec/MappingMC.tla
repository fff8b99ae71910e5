----------------------------- MODULE MappingMC -----------------------------
EXTENDS Mapping, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Given, MaxGiven
VARIABLES kind, member, off, given, blank, phase
Init == phase = "kind" /\ kind = "fit" /\ member = 0 /\ off = 0 /\ given = {} /\ blank = 0
Pick == /\ phase = "kind" /\ kind' \in {"fit", "group", "recon"} /\ member' \in {0, 1} /\ off' \in {0, 1}
        /\ member' = 1 => kind' = "fit"
        /\ blank' \in {0, 1}      \* the given values are all None
        /\ phase' = "give" /\ UNCHANGED given
Give == /\ phase = "give" /\ Cardinality(given) < MaxGiven
        /\ \E k \in Given \ given : given' = given \cup {k}
        /\ UNCHANGED <<kind, member, off, blank, phase>>
Spec == Init /\ [][Pick \/ Give]_<<kind, member, off, given, blank, phase>>
CoreAlways == Core \subseteq Final(kind, member, given)
GivenAlways == given \subseteq Final(kind, member, given)
LinksKept == Links(kind, member) \cap FromCaller(kind, member, given) = {}
Emit == phase = "give" => CSVWrite("%1$s", <<ToJson([kind |-> kind, member |-> member, off |-> off, blank |-> blank, given |-> given])>>, IOEnv.CASES)
=============================================================================
