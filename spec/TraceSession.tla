------------------------------ MODULE TraceSession ------------------------------
(* Validates recorded sessions against Session and Container: every call's      *)
(* result is that of the call alone on a fresh plain copy of the content, and    *)
(* the rest of the world is as it was.                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
C == INSTANCE Container

Cases == ndJsonDeserialize(IOEnv.CASES)

RefOf(case, c, k) == LET i == CHOOSE j \in 1..Len(case.refs) : case.refs[j].c = c /\ case.refs[j].k = k
                     IN  case.refs[i]
Clause(name, failed) == IF failed THEN {name} ELSE {}

\* the world this session is in: contents of files and streams, bytes of files
VARIABLES l, k, disk, pool
vars == <<l, k, disk, pool>>

Empty == [x \in {} |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

\* what everything looks like after step st, when the files are to be d
World(st, d) ==
  Clause("FileChanged", {<<st.disk[i][1], st.disk[i][2]>> : i \in 1..Len(st.disk)}
                        # {<<f, d[f].bytes>> : f \in DOMAIN d})
  \cup Clause("StreamChanged", ~st.streams)
  \cup Clause("ResultChanged", st.held # st.was)
  \cup Clause("OptionsChanged", ~st.opts)

Target(st) == IF st.t = "f" THEN disk[st.f] ELSE pool[st.f]

JudgeCall(case, st) ==
  LET tg  == Target(st)
      ref == RefOf(case, tg.c, st.k)
      con == case.contents[tg.c + 1]
      op  == case.ops[st.k + 1]
  IN  IF op = "info" /\ tg.box.crx
      THEN Clause("Info", st.inf # <<C!InfoVersion(tg.box, con.version, con.major), ref.inf[2]>>)
      ELSE Clause("Result", st.tok # ref.tok)

Verdict(case, i, v) ==
  IF v = {} THEN TRUE
  ELSE PrintT("@@" \o ToJson([id |-> case.id, step |-> i, clauses |-> SetToSeq(v)]))

Init == l = 1 /\ k = 1 /\ disk = Empty /\ pool = Empty
Case == Cases[l]
Step == Case.steps[k]
Advance == IF k < Len(Case.steps) THEN k' = k + 1 /\ l' = l ELSE k' = 1 /\ l' = l + 1
Fresh == k = Len(Case.steps)
Keep(d, p) == disk' = (IF Fresh THEN Empty ELSE d) /\ pool' = (IF Fresh THEN Empty ELSE p)

Is(a) == l <= Len(Cases) /\ Step.a = a
WriteFile == /\ Is("write")
             /\ LET d == Put(disk, Step.f, [c |-> Step.c, box |-> Step.box, bytes |-> Step.bytes])
                IN  Verdict(Case, k, World(Step, d)) /\ Keep(d, pool)
             /\ Advance
NewStream == /\ Is("stream")
             /\ Verdict(Case, k, World(Step, disk))
             /\ Keep(disk, Put(pool, Step.f, [c |-> Step.c, box |-> Step.box]))
             /\ Advance
Other == /\ (Is("seek") \/ Is("scribble"))
         /\ Verdict(Case, k, World(Step, disk))
         /\ Keep(disk, pool) /\ Advance
Call == /\ Is("call")
        /\ Verdict(Case, k, JudgeCall(Case, Step) \cup World(Step, disk))
        /\ Keep(disk, pool) /\ Advance
Next == WriteFile \/ NewStream \/ Other \/ Call
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").diameter - 1 = FoldLeft(LAMBDA n, c : n + Len(c.steps), 0, Cases)
=============================================================================
