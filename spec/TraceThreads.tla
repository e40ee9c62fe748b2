------------------------------ MODULE TraceThreads ------------------------------
(* Validates recorded runs of calls made at the same time: the recorded order   *)
(* of their beginnings, steps and ends is one of Threads, every call gave what   *)
(* it gives alone, results stay as they were given, and no file changed but the  *)
(* outputs, which hold what they hold when written alone.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Clause(name, failed) == IF failed THEN {name} ELSE {}
Verdict(case, i, v) ==
  IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> case.id, step |-> i, clauses |-> SetToSeq(v)]))

VARIABLES l, k, runs      \* runs: what each call is doing: "idle", "runs", "ended"
vars == <<l, k, runs>>
Case == Cases[l]
Step == Case.steps[k]
All(m) == [p \in 1..4 |-> m]
Fresh == k = Len(Case.steps)
Advance(r) == /\ IF Fresh THEN k' = 1 /\ l' = l + 1 ELSE k' = k + 1 /\ l' = l
              /\ runs' = IF Fresh THEN All("idle") ELSE r
Is(a) == l <= Len(Cases) /\ Step.a = a

Init == l = 1 /\ k = 1 /\ runs = All("idle")
Begin == /\ Is("begin") /\ Verdict(Case, k, Clause("Order", runs[Step.p] # "idle"))
         /\ Advance([runs EXCEPT ![Step.p] = "runs"])
Work == /\ Is("work") /\ Verdict(Case, k, Clause("Order", runs[Step.p] # "runs")) /\ Advance(runs)
End == /\ Is("end")
       /\ Verdict(Case, k, Clause("Order", runs[Step.p] # "runs")
                           \cup Clause("Result", Step.tok # Case.alone[Step.p].tok)
                           \cup Clause("Output", Step.out # Case.alone[Step.p].out))
       /\ Advance([runs EXCEPT ![Step.p] = "ended"])
\* after all calls: results and files once more
Finish == /\ Is("finish")
          /\ Verdict(Case, k, Clause("Unfinished", \E p \in 1..Len(Case.alone) : runs[p] # "ended")
               \cup Clause("ResultChanged", Step.held # Step.was)
               \cup Clause("OptionsChanged", ~Step.opts)
               \cup Clause("FileChanged", Range(Step.before) # Range(Step.after))
               \cup Clause("Output", \E p \in 1..Len(Case.alone) : Step.outs[p] # Case.alone[p].out)
               \cup Clause("Extra", Range(Step.names) # UNION {Range(Case.alone[p].names) : p \in 1..Len(Case.alone)}))
          /\ Advance(runs)
Next == Begin \/ Work \/ End \/ Finish
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").diameter - 1 = FoldLeft(LAMBDA n, c : n + Len(c.steps), 0, Cases)
=============================================================================
