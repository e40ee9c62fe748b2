------------------------------- MODULE TraceHead -------------------------------
(* Validates what the real code reported of first lines, headers and datasets.  *)
EXTENDS Header, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Clause(name, failed) == IF failed THEN {name} ELSE {}
Verdict(case, i, v) ==
  IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> case.id, run |-> i, clauses |-> SetToSeq(v)]))

------------------------------------------------------------------------------
(* first lines *)
DataKinds == {"obs", "nav", "sp3"}
Refused(n, r) == Clause(n, r.ok)
Given(n, r) == Clause(n, ~r.ok)
JudgeFirst(f, run) ==
  LET c == Classify(f)
      r == run.r
  IN  IF c.k = "open" THEN {}
      ELSE CASE run.op = "info" ->
             CASE c.k \in {"obs", "nav"} -> Given("InfoFailed", r) \cup Clause("InfoKind", r.ok /\ r.kind # c.k)
                                            \cup Clause("InfoSystem", r.ok /\ (c.k = "obs" \/ f.major = 2) /\ r.sys # c.s)
                                            \cup Clause("InfoVersion", r.ok /\ r.ver # run.ver)
               [] c.k = "sp3" -> Given("InfoFailed", r) \cup Clause("InfoKind", r.ok /\ r.kind # "sp3") \cup Clause("InfoVersion", r.ok /\ r.ver # run.ver)
               [] c.k = "refuse" -> Refused("InfoNotRefused", r)
               [] c.k = "nonav" -> {}
               \* versions that cannot be read may be reported with their kind
               [] OTHER -> Clause("InfoKind", r.ok /\ r.kind \in DataKinds /\ f.major \in {2, 3})
        [] run.op = "header" -> IF c.k \in {"obs", "nav"} THEN Given("HeaderFailed", r) ELSE IF c.k = "nonav" THEN {} ELSE Refused("HeaderNotRefused", r)
        [] run.op = "time" -> IF c.k \in {"obs", "nav"} THEN Given("TimesFailed", r) ELSE IF c.k = "nonav" THEN {} ELSE Refused("TimesNotRefused", r)
        \* an observation file of SBAS alone states no time system
        [] OTHER -> IF c.k = "obs" /\ c.s = "S" THEN {}
                    ELSE IF c.k \in DataKinds THEN Given("LoadFailed", r) \cup Clause("LoadKind", r.ok /\ c.k # "sp3" /\ r.kind # c.k)
                    ELSE Refused("LoadNotRefused", r)

------------------------------------------------------------------------------
(* headers *)
\* the systems of a header's types are the letters, types in order
AsFun(q) == [x \in {q[i][1] : i \in 1..Len(q)} |-> q[CHOOSE i \in 1..Len(q) : q[i][1] = x][2]]
JudgeHeader(case, r) ==
  LET v   == HeadView(case.fam, case.recs)
      got == AsFun(r.labels)
  IN  IF ~r.ok THEN {"HeaderFailed"}
      ELSE Clause("LabelLost", DOMAIN v \ DOMAIN got # {})
           \cup Clause("LabelInvented", DOMAIN got \ DOMAIN v # {})
           \cup Clause("LabelText", \E x \in DOMAIN v \cap DOMAIN got : v[x] # got[x])
           \cup Clause("HeaderVersion", r.ver # case.ver)
           \cup (IF Obs(case.fam) THEN
                   Clause("HeaderTypes", AsFun(r.types) # AsFun(case.types))
                   \cup Clause("HeaderPosition", LET p == Position(case.recs) IN IF Len(p) = 3 THEN r.pos # p ELSE r.pos \notin {<<>>, p})
                   \cup Clause("HeaderFirst", r.t0 # Time(case.recs, "TIME OF FIRST OBS"))
                   \cup Clause("HeaderLast", case.fam = "obs2" /\ r.t1 # Time(case.recs, "TIME OF LAST OBS"))
                   \cup Clause("HeaderInterval", r.iv # Interval(case.recs))
                   \cup Clause("HeaderGeodetic", r.geo = "bad")
                 ELSE {})
           \cup Clause("HeaderCorr", case.fam = "nav3" /\ AsFun(r.corr) # Corr(case.recs, "IONOSPHERIC CORR"))
           \cup Clause("HeaderTimeCorr", case.fam = "nav3" /\ AsFun(r.tcorr) # Corr(case.recs, "TIME SYSTEM CORR"))

------------------------------------------------------------------------------
(* datasets *)
SvLetters(r) == {SubSeq(r.svs[i], 1, 1) : i \in 1..Len(r.svs)}
Offsets(case, o) ==
  LET e == case.eps
      k == KeptTimes(o, [i \in 1..Len(e) |-> e[i][1]])
      q == SelectSeq(e, LAMBDA x : x[1] \in k /\ x[2] # "")
  IN  [i \in 1..Len(q) |-> q[i][2]]
JudgeObs(case, o, r) ==
  LET p == Position(case.recs)
      m == Model(case.recs)
      h == Interval(case.recs)
      c == Of(case.recs, "RCV CLOCK OFFS APPL")
  IN  Clause("TimeSystem", r.tsys # TimeSystem(case.sys, case.recs))
      \cup Clause("Position", IF Len(p) = 3 THEN r.pos # p ELSE r.pos \notin {<<>>, p})
      \cup Clause("Geodetic", (Len(p) = 3 /\ r.geo # "ok") \/ r.geo = "bad")
      \cup Clause("Model", case.fam = "obs2" /\ IF m = <<>> THEN r.model # <<>> ELSE IF m[1] = "" THEN r.model \notin {<<>>, <<"">>} ELSE r.model # m)
      \cup Clause("Interval", IF h # <<>> THEN r.iv # h
                              ELSE IF Len(r.times) >= 2 THEN r.iv2 # TwiceMedian(r.times) ELSE r.iv \notin {<<>>, <<"nan">>})
      \cup Clause("ClockApplied", case.fam = "obs3" /\ Len(c) <= 1 /\ r.rcv # Nums(c))
      \cup Clause("ClockOffsets", case.fam = "obs3" /\ r.offs # Offsets(case, o))
JudgeNav(case, r) ==
  LET ion == IF case.fam = "nav2" THEN Iono2(case.recs) ELSE Iono3(Corr(case.recs, "IONOSPHERIC CORR"))
  IN  Clause("Systems", ToSet(r.svtype) # (IF case.fam = "nav2" THEN {case.sys} ELSE SvLetters(r)))
      \cup Clause("Iono", \E x \in IonoNames : r.iono[x] # ion[x])
JudgeSp3(case, r) ==
  LET s == case.sp3
  IN  Clause("Sp3Header", r.sp3 # s)
JudgeLoad(case, run) ==
  LET r == run.r
  IN  IF ~r.ok THEN {"LoadFailed"}
      ELSE IF case.fam = "sp3" THEN JudgeSp3(case, r)
      \* nothing selected: nothing need be stated
      ELSE IF r.svs = <<>> /\ Obs(case.fam) /\ r.ver = "" THEN {}
      ELSE Clause("Version", r.ver # case.ver)
           \cup Clause("Kind", r.kind # (IF Obs(case.fam) THEN "obs" ELSE "nav"))
           \cup Clause("FileName", r.name # run.name)
           \cup (IF Obs(case.fam) THEN JudgeObs(case, run.o, r) ELSE JudgeNav(case, r))

------------------------------------------------------------------------------
VARIABLES l, k
vars == <<l, k>>
Init == l = 1 /\ k = 1
Case == Cases[l]
Run == Case.runs[k]
Advance == IF k < Len(Case.runs) THEN k' = k + 1 /\ l' = l ELSE k' = 1 /\ l' = l + 1
At(t, ops) == l <= Len(Cases) /\ Case.t = t /\ Run.op \in ops
First1 == At("first", {"info", "header", "time", "load"}) /\ Verdict(Case, k, JudgeFirst(Case.f, Run)) /\ Advance
Header1 == At("head", {"header"}) /\ Verdict(Case, k, JudgeHeader(Case, Run.r)) /\ Advance
Load1 == At("head", {"load"}) /\ Verdict(Case, k, JudgeLoad(Case, Run)) /\ Advance
Next == First1 \/ Header1 \/ Load1
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").diameter - 1 = FoldLeft(LAMBDA n, c : n + Len(c.runs), 0, Cases)
=============================================================================
