------------------------------- MODULE TraceStore -------------------------------
(* Validates recorded histories of conversions against Store: every step's       *)
(* outcome, what it returned, what each output file then holds, and that no      *)
(* other file changed by a byte.                                                *)
EXTENDS Store, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Clause(name, failed) == IF failed THEN {name} ELSE {}
Verdict(case, i, v) ==
  IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> case.id, step |-> i, clauses |-> SetToSeq(v)]))

VARIABLES l, k, store     \* store: path -> [sha, kind, g]
vars == <<l, k, store>>

\* what was recorded: <<path, sha, kind, <<group, token>>...>>
Files(st) == [p \in {st.files[i][1] : i \in 1..Len(st.files)} |->
   LET i == CHOOSE j \in 1..Len(st.files) : st.files[j][1] = p
       gs == st.files[i][4]
   IN  [sha |-> st.files[i][2], kind |-> st.files[i][3],
        g |-> [x \in {gs[j][1] : j \in 1..Len(gs)} |-> gs[CHOOSE j \in 1..Len(gs) : gs[j][1] = x][2]]]]
Abs(s) == [p \in DOMAIN s |-> [kind |-> s[p].kind, g |-> s[p].g]]
Same(a, b, p) == (p \in DOMAIN a) = (p \in DOMAIN b) /\ (p \in DOMAIN a => a[p].sha = b[p].sha)

\* the source's read alone with these options
Ref(case, s, o, iv) ==
  LET i == CHOOSE j \in 1..Len(case.refs) : case.refs[j].s = s /\ case.refs[j].o = o /\ case.refs[j].iv = iv
      t == case.refs[i].tok
      f == case.files[s + 1].fam
  IN  [what |-> IF t = "!" THEN "fail" ELSE CASE f \in {"obs2", "obs3"} -> "obs" [] f \in {"nav2", "nav3"} -> "nav" [] OTHER -> "sp3",
       data |-> t]

\* paths whose expected content is as before keep their bytes; the others hold
\* what is expected of them
\* written: files written again, whose bytes may differ for the same content
JudgeFiles(now, want, who, written) ==
  Clause("Content" \o who, \E p \in DOMAIN want : (p \notin DOMAIN store \/ want[p] # Abs(store)[p] \/ p \in written)
                                   /\ (p \notin DOMAIN now \/ Abs(now)[p] # want[p]))
  \cup Clause("Touched" \o who, \E p \in DOMAIN want \ written : p \in DOMAIN store /\ want[p] = Abs(store)[p] /\ ~Same(store, now, p))
  \cup Clause("Extra" \o who, DOMAIN now \ DOMAIN want # {})

JudgeLoad(case, st, now) ==
  LET r == Ref(case, st.s, st.o, TRUE)
      e == Load(Abs(store), case.files[st.s + 1].name, r, st.gr, st.out, st.ow)
  IN  Clause("Outcome", st.ok # e.ok)
      \cup Clause("Returned", st.ok /\ st.tok # "" /\ st.tok # r.data)
      \cup JudgeFiles(now, e.store, "", IF e.ok /\ st.ow THEN {Target(st.out, case.files[st.s + 1].name)} ELSE {})

JudgeBatch(case, st, now) ==
  LET hit  == SelectSeq([i \in 1..Len(case.files) |-> i], LAMBDA i : ~case.files[i].dir /\ Matches(case.files[i].name, st.pat))
      srcs == [i \in 1..Len(hit) |-> [name |-> case.files[hit[i]].name, r |-> Ref(case, hit[i] - 1, st.o, FALSE)]]
  IN  Clause("Outcome", ~st.ok) \cup JudgeFiles(now, Batch(Abs(store), srcs, st.out), "", {})

\* reading a converted file
Groups(f) == IF f \in DOMAIN store THEN store[f].g ELSE [x \in {} |-> ""]
Low(g) == IF g = "OBS" THEN "obs" ELSE "nav"
ReadBack(st) ==
  LET g  == Groups(st.f)
      on == DOMAIN g \cap {"OBS", "NAV"}
      one(x) == [ok |-> x \in DOMAIN g, res |-> IF x \in DOMAIN g THEN {<<"", g[x]>>} ELSE {}]
  IN  CASE st.via = "info" -> [ok |-> on # {}, res |-> {<<Low(x), "">> : x \in on}]
        [] st.via = "obs"  -> one(Group("obs", st.gr))
        [] st.via = "nav"  -> one(Group("nav", st.gr))
        [] OTHER -> [ok |-> on # {}, res |-> IF Cardinality(on) = 2 THEN {<<Low(x), g[x]>> : x \in on} ELSE {<<"", g[x]>> : x \in on}]
JudgeRead(st, now) ==
  LET e == ReadBack(st)
  IN  Clause("Outcome", st.ok # e.ok)
      \cup Clause("ReadBack", st.ok /\ {<<st.res[i][1], st.res[i][2]>> : i \in 1..Len(st.res)} # e.res)
      \cup JudgeFiles(now, Abs(store), "", {})

Init == l = 1 /\ k = 1 /\ store = [x \in {} |-> 0]
Case == Cases[l]
Step == Case.steps[k]
Advance == IF k < Len(Case.steps) THEN k' = k + 1 /\ l' = l ELSE k' = 1 /\ l' = l + 1
Is(a) == l <= Len(Cases) /\ Step.a = a
\* what was returned earlier is in use all the time, and stays as it was
Take(v) == LET now == Files(Step) IN Verdict(Case, k, v \cup Clause("HeldChanged", ~Step.held)) /\ store' = now /\ Advance

Start == Is("start") /\ Take({})
DoLoad == Is("load") /\ Take(JudgeLoad(Case, Step, Files(Step)))
DoBatch == Is("batch") /\ Take(JudgeBatch(Case, Step, Files(Step)))
DoRead == Is("read") /\ Take(JudgeRead(Step, Files(Step)))
\* done by the check itself
Outside == (Is("junk") \/ Is("remove")) /\ Take({})
Next == Start \/ DoLoad \/ DoBatch \/ DoRead \/ Outside
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").diameter - 1 = FoldLeft(LAMBDA n, c : n + Len(c.steps), 0, Cases)
=============================================================================
