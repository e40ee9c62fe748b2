------------------------------- MODULE TraceLister ------------------------------
(* Validates what the time lister printed: for each readable file its name,      *)
(* first and last epoch, number of epochs and the interval its header states,    *)
(* and nothing for the others.                                                  *)
EXTENDS Store, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Clause(name, failed) == IF failed THEN {name} ELSE {}
Verdict(case, i, v) ==
  IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> case.id, step |-> i, clauses |-> SetToSeq(v)]))
VARIABLE l

Listed(f) == f.ok /\ f.times # <<>>
Line(f) == <<f.name, f.times[1], f.times[Len(f.times)], Len(f.times), f.iv>>
Chosen(case, st) ==
  IF st.f # "" THEN {f \in ToSet(case.files) : f.name = st.f}
  ELSE {f \in ToSet(case.files) : ~f.dir /\ \E p \in ToSet(st.pats) : Matches(f.name, p)}
Judge(case, st) ==
  LET fs == Chosen(case, st)
  IN  Clause("Lines", ToSet(st.lines) # {Line(f) : f \in {g \in fs : Listed(g)}})
      \cup Clause("Outcome", (st.code = 0) # (st.f = "" \/ \A f \in fs : Listed(f)))

Init == l = 1
Next == /\ l <= Len(Cases)
        /\ \A i \in 1..Len(Cases[l].steps) : Verdict(Cases[l], i, Judge(Cases[l], Cases[l].steps[i]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Cases)
=============================================================================
