------------------------------ MODULE TraceC12 ------------------------------
(* C12: mappings are valid JSON that says exactly what the plane says.        *)
EXTENDS StatelessTrace, Mapping

Set(s) == {s[i] : i \in DOMAIN s}
(* two encoded values are bit-for-bit the same *)
Same(a, b) == a.s = b.s /\ a.v = b.v
Map(e) ==
  LET keys == Set(e.keys)
      given == Set(e.given)
      own == Keys(e.kind, e.member) \ FromCaller(e.kind, e.member, given)
      j == e.json
  IN << Must("json-valid", e.valid = 1) >> \o
     When(e.valid = 1, <<
       Must("keys", keys = Final(e.kind, e.member, given)),
       Must("json-round-trip", e.roundtrip = 1),
       Must("given-values-win", Set(e.kept) = FromCaller(e.kind, e.member, given)) >> \o
     When(keys = Final(e.kind, e.member, given), <<
       Clause("uid-reported", "uid" \in own, e.uid = e.want.uid),
       Clause("axes-reported", "axes" \in own, Same(j.axes, e.want.axes) /\ IsMat(j.axes, 3, 3)),
       Clause("error-axes-reported", "hyperbolic_axes" \in own,
              Same(j.hyperbolic_axes, e.want.hyperbolic_axes) /\ IsVec(j.hyperbolic_axes, 3)),
       Clause("strike-reported", "strike" \in own, Same(j.strike, e.want.strike) /\ IsNum(j.strike)),
       Clause("dip-reported", "dip" \in own, Same(j.dip, e.want.dip) /\ IsNum(j.dip)),
       Clause("rake-reported", "rake" \in own, Same(j.rake, e.want.rake) /\ IsNum(j.rake)),
       Clause("max-error-reported", "max_angular_error" \in own, Same(j.max_angular_error, e.want.max)),
       Clause("min-error-reported", "min_angular_error" \in own, Same(j.min_angular_error, e.want.min)),
       Clause("disabled-reported", "disabled" \in own, e.disabled = e.off),
       Clause("center-reported", "center" \in own, Same(j.center, e.want.center) /\ IsVec(j.center, 3)),
       Clause("data-reported", "centered_array" \in own,
              IF e.kind = "group" THEN IsNone(j.centered_array) ELSE Same(j.centered_array, e.want.data)),
       Clause("members-reported", e.kind = "group", e.members = e.want.members),
       Clause("owner-reported", e.member = 1, e.owner = e.want.owner) >>))

(* the printed form names the same values, to the hundredth of a degree *)
Said(e) == << Must("printed", LET w == << e.want.strike, e.want.dip, e.want.rake, e.want.min, e.want.max >> IN
                \A i \in 1 .. 5 : FinNum(w[i]) => FinNum(e.got[i]) /\ RNear(Num(e.got[i]), Num(w[i]), "0.00501")) >>
C12(e) == IF e.ev = "said" THEN Said(e) ELSE Map(e)
=============================================================================
