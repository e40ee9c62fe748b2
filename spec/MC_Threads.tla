------------------------------ MODULE MC_Threads ------------------------------
(* All interleavings of the steps of a few calls; the order in which the calls  *)
(* take their steps is exported.                                                *)
EXTENDS Threads, TLC, Json
CONSTANTS Procs, Contents, Calls, Even    \* Even: all calls are of the same length
VARIABLES ps, hist
vars == <<ps, hist>>
Init == ps = [p \in Procs |-> Idle] /\ hist = <<>>
Do(p, s) == ps' = [ps EXCEPT ![p] = s] /\ hist' = Append(hist, p)
Next == \/ \E p \in Procs : \/ CanBegin(ps[p]) /\ \E c \in Contents, k \in Calls :
                                 (Even => k = 1) /\ Do(p, Begin(ps[p], c, k))
                            \/ CanWork(ps[p]) /\ Do(p, Work(ps[p]))
                            \/ CanEnd(ps[p]) /\ Do(p, End(ps[p]))
Spec == Init /\ [][Next]_vars
Separate == \A p \in Procs : ps[p].m = "ended" => Given(ps[p]) = Alone(ps[p].c, ps[p].k)
OwnPart == \A p \in Procs : ps[p].m # "idle" => Given(ps[p]) = SubSeq(LinesOf(ps[p].c), 1, ps[p].pos)
Over == \A p \in Procs : ps[p].m = "ended"
Emit == Over => PrintT("@@" \o ToJson(hist))
=============================================================================
