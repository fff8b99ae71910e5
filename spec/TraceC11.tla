------------------------------ MODULE TraceC11 ------------------------------
(* C11: identifiers.  Abstract state: the identifiers seen in the scenario,   *)
(* one per distinct fit.                                                      *)
EXTENDS StatefulTrace

Hex == {48,49,50,51,52,53,54,55,56,57,97,98,99,100,101,102}
WellFormed(u) == Len(u) = 8 /\ \A i \in 1 .. 8 : u[i] \in Hex
C11Begin(e) == [x \in {} |-> <<>>]
C11Step(s, e) == (e.label :> e.uid) @@ s
C11Verdict(s, e) ==
  << Must("eight-hex-digits", WellFormed(e.uid)),
     Clause("same-fit-same-identifier", e.label \in DOMAIN s, s[e.label] = e.uid),
     Clause("distinct-fits-distinct-identifiers", \E x \in DOMAIN s : x # e.label,
            \A x \in DOMAIN s : x # e.label => s[x] # e.uid),
     Must("mapping-carries-identifier", e.mapped = e.uid) >>
=============================================================================
