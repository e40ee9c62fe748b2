------------------------------- MODULE TraceRead -------------------------------
(* Validates recorded executions of the real readers against the reader        *)
(* specifications.  Each case is one abstract file (the text the real code was *)
(* given is a rendering of it) with the runs made on it; a run records the     *)
(* public call's options and what it returned.  For every run the verdict is   *)
(* the set of clauses it fails; verdicts are printed, never raised.            *)
EXTENDS Base, Json, IOUtils

O2 == INSTANCE Obs2 WITH PerLine <- 5, SatsPerLine <- 12
O3 == INSTANCE Obs3
N2 == INSTANCE Nav2
N3 == INSTANCE Nav3
S3 == INSTANCE Sp3

Cases == ndJsonDeserialize(IOEnv.CASES)

(* What the specification allows for one load: lo is what must be returned, hi *)
(* what may be; ts, svs, vars bound the axes and names; no = refusal demanded, *)
(* may = refusal allowed.                                                      *)
Nothing == [lo |-> {}, hi |-> {}, ts |-> {}, svs |-> {}, vars |-> {}, no |-> TRUE, may |-> TRUE]

(* Damage: an epoch or record line with dmg cannot be read; a value of -2 is a *)
(* field that cannot be read.                                                  *)
Unreadable(ln) == "dmg" \in DOMAIN ln
Seen(ln) == IF Unreadable(ln) THEN [k |-> "X"] ELSE ln
Lines(c, cut) == LET ls == IF cut < 0 THEN c.lines ELSE SubSeq(c.lines, 1, cut)
                 IN  IF c.broken THEN [i \in 1..Len(ls) |-> Seen(ls[i])] ELSE ls

Expect(c, o, cut) ==
  LET h == c.h
      ls == Lines(c, cut)
      may == cut >= 0 \/ c.broken
  IN
  IF BadOptions(o) THEN Nothing
  ELSE CASE c.fam = "obs2" ->
         LET st == O2!Read(h, o, ls)
         IN  [lo |-> O2!CompleteCells(st), hi |-> O2!Cells(st), ts |-> Range(st.kept),
              svs |-> O2!Sats(o, ls), vars |-> O2!Names(h, o), no |-> FALSE, may |-> may]
    [] c.fam = "obs3" ->
         IF O3!NoSuchSystem(h, o) THEN Nothing
         ELSE LET st == O3!Read(h, o, ls)
              IN  [lo |-> O3!CompleteCells(st), hi |-> O3!Cells(st), ts |-> Range(st.kept),
                   svs |-> O3!Sats(o, ls), vars |-> O3!Names(h, o), no |-> FALSE, may |-> may]
    [] c.fam = "nav2" ->
         LET st == N2!Read(h, o, ls)
         IN  [lo |-> IF c.broken THEN N2!CompleteCells(h, [st EXCEPT !.recs = SelectSeq(@, LAMBDA r : N2!Sound(r.v))]) ELSE N2!CompleteCells(h, st), hi |-> N2!Cells(h, st),
              ts |-> {t \in st.eps : InWindow(o, t)},
              svs |-> N2!RecSats(st), vars |-> Range(N2!Fields2(h.sys)), no |-> FALSE, may |-> may]
    [] c.fam = "nav3" ->
         LET st == N3!Read(h, o, ls)
             full == N3!CompleteRecs(st)
             all == N3!AllRecs(st)
         IN  IF N3!BadLayout(full) THEN Nothing
             ELSE [lo |-> IF c.broken THEN N3!SoundCells(full) ELSE N3!CellsOf(full), hi |-> N3!CellsOf(all),
                   ts |-> {t \in st.eps : InWindow(o, t)},
                   svs |-> N3!SatsOf(all), vars |-> N3!NamesOf(all), no |-> FALSE, may |-> may]
    [] c.fam = "sp3" ->
         LET st == S3!Read(ls)
         IN  [lo |-> IF cut >= 0 THEN S3!CompleteCells(st) ELSE S3!Cells(st), hi |-> S3!Cells(st),
              ts |-> Range(st.eps), svs |-> {S3!Id(h.svs[i]) : i \in 1..Len(h.svs)},
              vars |-> {"position", "clock", "velocity", "dclock"}, no |-> FALSE, may |-> may]

(* the epochs a file lists, in the order they are to be listed *)
EpochsOf(c, ls) ==
  CASE c.fam = "obs2" -> O2!Read(c.h, NoOpts, ls).eps
    [] c.fam = "obs3" -> O3!Read(c.h, NoOpts, ls).eps
    [] c.fam = "nav2" -> SetToSortSeq(N2!Read(c.h, NoOpts, ls).eps, Less)
    [] c.fam = "nav3" -> SetToSortSeq(N3!Read(c.h, NoOpts, ls).eps, Less)
\* an epoch of which only the number of satellites cannot be read may be listed
Dated(c) == [i \in 1..Len(c.lines) |->
               IF Unreadable(c.lines[i]) /\ c.lines[i].dated
               THEN [svs |-> <<>>] @@ [c.lines[i] EXCEPT !.n = 0] ELSE Seen(c.lines[i])]
Listings(c) == {EpochsOf(c, Lines(c, -1))} \cup (IF c.broken THEN {EpochsOf(c, Dated(c))} ELSE {})

------------------------------------------------------------------------------
Got(r) == {<<r.times[q[1]], r.svs[q[2]], r.vars[q[3]], q[4]>> : q \in Range(r.cells)}
NoRepeat(s) == Cardinality(Range(s)) = Len(s)
Increasing(s) == \A i \in 1..(Len(s) - 1) : Less(s[i], s[i + 1])
Base3(v) == IF StartsWith(v, "position") THEN "position"
            ELSE IF StartsWith(v, "velocity") THEN "velocity" ELSE v

Clause(name, failed) == IF failed THEN {name} ELSE {}

Against(e, r, fam) ==
  IF ~r.ok THEN IF r.err \in {"Timeout", "Died"} THEN {r.err} ELSE Clause("Raised", ~e.may)
  ELSE IF e.no THEN {"NotRefused"}
  ELSE LET got == Got(r)
           vs  == {Base3(r.vars[i]) : i \in 1..Len(r.vars)}
       IN  Clause("Missing", ~(e.lo \subseteq got))
           \cup Clause("Extra", ~(got \subseteq e.hi))
           \cup Clause("Times", ~(Range(r.times) \subseteq e.ts) \/ ~NoRepeat(r.times))
           \cup Clause("Order", ~Increasing(r.times))
           \cup Clause("Sats", ~(Range(r.svs) \subseteq e.svs) \/ ~NoRepeat(r.svs))
           \cup Clause("Names", ~(vs \subseteq e.vars))

JudgeLoad(c, run) == Against(Expect(c, run.o, run.cut), run.r, c.fam)

\* listed to the millisecond
Near(a, b) == LET du == (a[1] - b[1]) * 1000000 + a[2] - b[2]
              IN  a[1] - b[1] \in -1..1 /\ du < 1000 /\ du > -1000 /\ a[2] % 1000 = 0
JudgeTime(c, run) ==
  IF ~run.r.ok THEN IF run.r.err \in {"Timeout", "Died"} THEN {run.r.err} ELSE Clause("Raised", ~c.broken)
  ELSE Clause("Epochs", \A e \in Listings(c) : Len(run.r.times) # Len(e)
                  \/ \E i \in 1..Min2(Len(e), Len(run.r.times)) : ~Near(run.r.times[i], e[i]))

\* the whole result, names and attributes included, equals that of an earlier run
JudgeSame(c, run) ==
  IF run.same = 0 THEN {}
  ELSE LET a == run.r
           b == c.runs[run.same].r
       IN  Clause("Differs", a.ok # b.ok \/ (a.ok /\ (Range(a.times) # Range(b.times)
                   \/ Range(a.svs) # Range(b.svs) \/ Range(a.vars) # Range(b.vars)
                   \/ Got(a) # Got(b) \/ a.attrs # b.attrs)))

\* a selection of measurements has exactly the variables of the full read it selects
JudgeVars(c, run) ==
  IF run.of = 0 \/ ~run.r.ok \/ ~c.runs[run.of].r.ok THEN {}
  ELSE Clause("Variables", Range(run.r.vars) #
                {v \in Range(c.runs[run.of].r.vars) : Wanted(run.o, v)})

Judge(c, run) ==
  IF run.op = "time" THEN JudgeTime(c, run)
  ELSE JudgeLoad(c, run) \cup JudgeSame(c, run) \cup JudgeVars(c, run)

(* Known finding NAV2-WINDOW: reading with a time window stops at the first    *)
(* record past the window, so that later records inside it are lost.           *)
Known(c, run) ==
  /\ c.fam = "nav2" /\ run.op = "load" /\ run.cut < 0 /\ run.o.tl # <<>> /\ run.r.ok
  /\ LET st == N2!ReadStop(c.h, run.o, c.lines)
         e  == [Expect(c, run.o, -1) EXCEPT !.lo = N2!CompleteCells(c.h, st),
                                            !.hi = N2!CompleteCells(c.h, st)]
     IN  N2!CellsOf(c.h, st.recs) # N2!CellsOf(c.h, N2!Read(c.h, run.o, c.lines).recs)
         /\ Against(e, run.r, c.fam) = {}

Verdict(c, k) ==
  LET v == Judge(c, c.runs[k])
  IN  IF v = {} THEN TRUE
      ELSE PrintT("@@" \o ToJson([id |-> c.id, run |-> k, clauses |-> SetToSeq(v),
                    known |-> IF Known(c, c.runs[k]) THEN "NAV2-WINDOW" ELSE ""]))

------------------------------------------------------------------------------
VARIABLES l, k            \* position in the trace: case and run
Init == l = 1 /\ k = 1
ValidateRun == /\ l <= Len(Cases)
               /\ Verdict(Cases[l], k)
               /\ IF k < Len(Cases[l].runs) THEN k' = k + 1 /\ l' = l
                  ELSE k' = 1 /\ l' = l + 1
Next == ValidateRun
Spec == Init /\ [][Next]_<<l, k>>
AllConsumed == TLCGet("stats").diameter - 1 =
                 FoldLeft(LAMBDA n, c : n + Len(c.runs), 0, Cases)
=============================================================================
