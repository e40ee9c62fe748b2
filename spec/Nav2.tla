--------------------------------- MODULE Nav2 ---------------------------------
(* RINEX 2 navigation files of one system h.sys in {"G", "R", "E"}.  Lines:    *)
(*   [k |-> "E", prn, y, mo, d, h, mi, s, f, c]  first line of a record, with  *)
(*        two-digit year, f tenths of microseconds and its three values        *)
(*   [k |-> "D", c]   further values, up to four a line; -1 is blank           *)
(*   [k |-> "J"]      foreign line                                             *)
EXTENDS Base, NavFields

More(sys) == IF sys = "R" THEN 3 ELSE 7          \* lines after the first
EpochTime(ln) == <<Seconds(FullYear(ln.y), ln.mo, ln.d, ln.h, ln.mi, ln.s), ln.f \div 10>>

Start == [m |-> "seek", left |-> 0, cur |-> <<>>, keep |-> FALSE, recs |-> <<>>, eps |-> {},
          past |-> FALSE]

CanReadFirst(st, ln) == st.m = "seek" /\ ln.k = "E"
ReadFirst(h, o, st, ln) ==
  LET t == EpochTime(ln)
  IN  [st EXCEPT !.m = "more", !.left = More(h.sys), !.keep = InWindow(o, t),
                 !.eps = @ \cup {t},
                 !.past = @ \/ (o.tl # <<>> /\ Less(o.tl[2], t)),
                 !.cur = [sv |-> SvName(<<h.sys, ln.prn>>), t |-> t, v |-> ln.c]]

CanReadMore(st, ln) == st.m = "more" /\ ln.k = "D"
ReadMore(h, o, st, ln) ==
  LET s1 == [st EXCEPT !.left = @ - 1, !.cur.v = @ \o ln.c]
  IN  IF s1.left > 0 THEN s1
      ELSE [s1 EXCEPT !.m = "seek", !.recs = IF st.keep THEN Append(@, s1.cur) ELSE @]

CanSkip(st, ln) == st.m = "seek" /\ ln.k # "E"
Skip(st) == st

Step(h, o, st, ln) ==
  IF CanReadFirst(st, ln) THEN ReadFirst(h, o, st, ln)
  ELSE IF CanReadMore(st, ln) THEN ReadMore(h, o, st, ln)
  ELSE Skip(st)

Read(h, o, lines) == FoldLeft(LAMBDA st, ln : Step(h, o, st, ln), Start, lines)

(* Named deviation of the implementation (a known finding, not allowed by the  *)
(* specification): reading stops for good at the first record past the window. *)
StepStop(h, o, st, ln) ==
  IF st.m = "seek" /\ ln.k = "E" /\ (st.past \/ (o.tl # <<>> /\ Less(o.tl[2], EpochTime(ln))))
  THEN [st EXCEPT !.past = TRUE]
  ELSE IF st.past THEN st ELSE Step(h, o, st, ln)
ReadStop(h, o, lines) == FoldLeft(LAMBDA st, ln : StepStop(h, o, st, ln), Start, lines)

Repeats(recs, sv) == \E i, j \in 1..Len(recs) : i < j /\ recs[i].sv = sv /\ recs[j].sv = sv
                                                /\ recs[i].t = recs[j].t
RecCells(h, r) == LET f == Fields2(h.sys)
                  IN  {<<r.t, r.sv, f[i], Scaled(h.sys, f[i], r.v[i])>> :
                       i \in {z \in 1..Min2(Len(f), Len(r.v)) : r.v[z] >= 0}}
\* a record with an unreadable field may be missing as a whole
Sound(v) == \A i \in 1..Len(v) : v[i] # -2
CellsOf(h, recs) == LET bad == {sv \in {recs[i].sv : i \in 1..Len(recs)} : Repeats(recs, sv)}
                    IN  UNION {IF recs[i].sv \in bad THEN {} ELSE RecCells(h, recs[i]) :
                               i \in 1..Len(recs)}
\* an unfinished record may already count as a repetition
AllRecs(st) == IF st.m = "more" /\ st.keep THEN Append(st.recs, st.cur) ELSE st.recs
CompleteCells(h, st) == CellsOf(h, st.recs) \cap CellsOf(h, AllRecs(st))
Cells(h, st) == CellsOf(h, st.recs) \cup CellsOf(h, AllRecs(st))
RecSats(st) == {st.recs[i].sv : i \in 1..Len(st.recs)}
                 \cup (IF st.m = "more" /\ st.keep THEN {st.cur.sv} ELSE {})

------------------------------------------------------------------------------
RecAt(lines) == {i \in 1..Len(lines) : lines[i].k = "E"}
RecSeq(h, o, lines) ==
  LET at == SetToSortSeq({i \in RecAt(lines) : InWindow(o, EpochTime(lines[i]))},
                         LAMBDA a, b : a < b)
  IN  [k \in 1..Len(at) |->
        [sv |-> SvName(<<h.sys, lines[at[k]].prn>>), t |-> EpochTime(lines[at[k]]),
         v |-> lines[at[k]].c \o FlattenSeq([q \in 1..More(h.sys) |-> lines[at[k] + q].c])]]
View(h, o, lines) == CellsOf(h, RecSeq(h, o, lines))
=============================================================================
