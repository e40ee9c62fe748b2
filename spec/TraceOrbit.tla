------------------------------- MODULE TraceOrbit -------------------------------
(* Validates positions computed by the code against the broadcast records.       *)
(* Each case holds the records of one satellite and what was computed for the    *)
(* epochs of the dataset it was selected from: three numbers or <<>> per epoch.  *)
EXTENDS Orbit, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Clause(name, failed) == IF failed THEN {name} ELSE {}
Verdict(case, v) == IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> case.id, clauses |-> SetToSeq(v)]))

\* a millimetre
Tolerance == [i \in 1..LIMBS |-> IF i = FRAC THEN 10 ELSE 0]
Within(a, b) == Leq(Abs(Sub(a, b)), Tolerance)

Axes == <<"X", "Y", "Z">>
Apart(got, want) == {Axes[k] : k \in {j \in 1..3 : ~Within(got[j], want[j])}}

JudgeEpoch(case, i) ==
  LET t == case.times[i]
      p == case.got[i]
      n == {k \in 1..Len(case.recs) : case.recs[k].t = t}
  IN  IF n = {} THEN Clause("PositionWithoutRecord", p # <<>>)
      ELSE LET r == case.recs[CHOOSE k \in n : TRUE]
           IN  IF case.sys \in {"R", "S"} THEN (IF p = <<>> THEN {"CoordinatesLost"} ELSE Clause("CoordinatesChanged", Apart(p, r.xyz) # {}))
               ELSE IF ~WitnessOf(r.el, t, r.w) THEN {"Witness"}
               ELSE IF p = <<>> THEN {"PositionLost"}
               ELSE Clause("Position", Apart(p, Position(r.el, t, r.w)) # {})
                    \cup Clause("Lattice", r.lat # <<>> /\ Apart(p, LatticeMetres(r.lat[1])) # {})

Judge(case) ==
  IF ~case.ok THEN {"Failed"}
  ELSE IF Len(case.got) # Len(case.times) THEN {"EpochCount"}
  ELSE UNION {JudgeEpoch(case, i) : i \in 1..Len(case.times)}
       \cup Clause("EpochLost", \E k \in 1..Len(case.recs) : case.recs[k].due /\ \A i \in 1..Len(case.times) : case.times[i] # case.recs[k].t)

VARIABLE l
Init == l = 1
Next == l <= Len(Cases) /\ Verdict(Cases[l], Judge(Cases[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Cases)
=============================================================================
