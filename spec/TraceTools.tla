------------------------------- MODULE TraceTools ------------------------------
(* Validates location tables, found files and converted times.                  *)
EXTENDS Tools, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Clause(name, failed) == IF failed THEN {name} ELSE {}
Verdict(case, i, v) ==
  IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> case.id, step |-> i, clauses |-> SetToSeq(v)]))

\* f: [name, states, recs, geo, iv]; row: <<name, lat, lon, interval>>
RowOf(f) == LET h == Interval(f.recs)
            IN  <<f.name, f.geo[1], f.geo[2], IF h = <<>> THEN f.iv ELSE h[1]>>
JudgeTable(files, st) ==
  LET q    == SelectSeq(files, LAMBDA f : f.states = "yes")
      must == [i \in 1..Len(q) |-> RowOf(q[i])]
      may  == SelectSeq(files, LAMBDA f : f.states = "open")
      free == {may[i].name : i \in 1..Len(may)}
  IN  IF ~st.ok THEN {"TableFailed"}
      ELSE Clause("RowLost", \E r \in ToSet(must) : Count(st.rows, r) < Count(must, r))
           \cup Clause("RowInvented", \E r \in ToSet(st.rows) : r[1] \notin free /\ Count(st.rows, r) > Count(must, r))
           \cup Clause("RowCount", \E x \in {files[i].name : i \in 1..Len(files)} :
                    Len(SelectSeq(st.rows, LAMBDA r : r[1] = x)) > Len(SelectSeq(files, LAMBDA f : f.name = x)))
JudgeFind(files, st) ==
  LET got == ToSet(st.found)
      want == IF st.of # "" THEN {st.of} ELSE Found(files, st.pats)
  IN  IF ~st.ok THEN {"FindFailed"}
      ELSE Clause("FileLost", want \ got # {}) \cup Clause("FileInvented", got \ want # {})
           \cup Clause("FileTwice", (st.of # "" \/ Len(st.pats) = 1) /\ Len(st.found) # Cardinality(got))
JudgeTimes(st) ==
  IF ~st.ok THEN {"TimesFailed"} ELSE Clause("Instants", st.got # st.times)

VARIABLES l, k
vars == <<l, k>>
Init == l = 1 /\ k = 1
Case == Cases[l]
Step == Case.steps[k]
Advance == IF k < Len(Case.steps) THEN k' = k + 1 /\ l' = l ELSE k' = 1 /\ l' = l + 1
At(a) == l <= Len(Cases) /\ Step.a = a
Table == At("table") /\ Verdict(Case, k, JudgeTable(SelectSeq(Case.files, LAMBDA f : f.id \in ToSet(Step.ids)), Step)) /\ Advance
Find == At("find") /\ Verdict(Case, k, JudgeFind(Case.files, Step)) /\ Advance
Times == At("times") /\ Verdict(Case, k, JudgeTimes(Step)) /\ Advance
Next == Table \/ Find \/ Times
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").diameter - 1 = FoldLeft(LAMBDA n, c : n + Len(c.steps), 0, Cases)
=============================================================================
