--------------------------------- MODULE Nav3 ---------------------------------
(* RINEX 3 navigation files, any mix of systems.  Lines:                       *)
(*   [k |-> "E", sv, y, mo, d, h, mi, s, c]  first line (four-digit year)      *)
(*   [k |-> "D", c]  further values; -1 is a blank field, -2 an unreadable one *)
(*   [k |-> "J"]     foreign or blank line                                     *)
EXTENDS Base, NavFields

More(sys) == IF sys \in {"R", "S"} THEN 3 ELSE 7
EpochTime(ln) == <<Seconds(ln.y, ln.mo, ln.d, ln.h, ln.mi, ln.s), 0>>

Start == [m |-> "seek", left |-> 0, cur |-> <<>>, keep |-> FALSE, recs |-> <<>>, eps |-> {}]

CanReadFirst(st, ln) == st.m = "seek" /\ ln.k = "E"
ReadFirst(h, o, st, ln) ==
  LET t == EpochTime(ln)
  IN  [st EXCEPT !.m = "more", !.left = More(ln.sv[1]), !.eps = @ \cup {t},
                 !.keep = InWindow(o, t) /\ Used(o, ln.sv[1]),
                 !.cur = [sys |-> ln.sv[1], sv |-> SvName(ln.sv), t |-> t, v |-> ln.c]]

CanReadMore(st, ln) == st.m = "more" /\ ln.k = "D"
ReadMore(h, o, st, ln) ==
  LET s1 == [st EXCEPT !.left = @ - 1, !.cur.v = @ \o ln.c]
  IN  IF s1.left > 0 THEN s1
      ELSE [s1 EXCEPT !.m = "seek", !.recs = IF st.keep THEN Append(@, s1.cur) ELSE @]

CanSkip(st, ln) == st.m = "seek" /\ ln.k # "E"
Skip(st) == st

Step(h, o, st, ln) ==
  IF CanReadFirst(st, ln) THEN ReadFirst(h, o, st, ln)
  ELSE IF CanReadMore(st, ln) THEN ReadMore(h, o, st, ln)
  ELSE Skip(st)

Read(h, o, lines) == FoldLeft(LAMBDA st, ln : Step(h, o, st, ln), Start, lines)

------------------------------------------------------------------------------
(* number of values a record has: up to its last one that is not blank *)
Width(v) == LET s == {i \in 1..Len(v) : v[i] # -1} IN IF s = {} THEN 0 ELSE SetMax(s)
Name(recs, i) == \* the k-th repetition of a satellite's epoch gets the suffix _k
  LET k == Cardinality({j \in 1..(i - 1) : recs[j].sv = recs[i].sv /\ recs[j].t = recs[i].t})
  IN  IF k = 0 THEN recs[i].sv ELSE recs[i].sv \o "_" \o ToString(k)
\* layout of a satellite: given by its longest record
WidthOf(recs, sv) == SetMax({Width(recs[i].v) : i \in {z \in 1..Len(recs) : recs[z].sv = sv}})
Layout(recs, i) == Fields3(recs[i].sys, WidthOf(recs, recs[i].sv))
RecCells(recs, i) ==
  LET f == Layout(recs, i)
      r == recs[i]
      n == Name(recs, i)
  IN  {<<r.t, n, f[k], IF k <= Len(r.v) /\ r.v[k] >= 0 THEN Scaled(r.sys, f[k], r.v[k]) ELSE 0>> :
       k \in {z \in 1..Len(f) : z > Len(r.v) \/ r.v[z] # -2}}
\* a record with an unreadable field may be missing as a whole
Sound(v) == \A i \in 1..Len(v) : v[i] # -2
SoundCells(recs) == UNION {IF Sound(recs[i].v) THEN RecCells(recs, i) ELSE {} : i \in 1..Len(recs)}
BadLayout(recs) == \E i \in 1..Len(recs) : Layout(recs, i) = <<>>
CellsOf(recs) == UNION {RecCells(recs, i) : i \in 1..Len(recs)}
NamesOf(recs) == UNION {AllNames(recs[i].sys) : i \in 1..Len(recs)}
SatsOf(recs) == {Name(recs, i) : i \in 1..Len(recs)}

CompleteRecs(st) == st.recs
AllRecs(st) == IF st.m = "more" /\ st.keep THEN Append(st.recs, st.cur) ELSE st.recs

RecAt(lines) == {i \in 1..Len(lines) : lines[i].k = "E"}
RecSeq(o, lines) ==
  LET at == SetToSortSeq({i \in RecAt(lines) : InWindow(o, EpochTime(lines[i]))
                                               /\ Used(o, lines[i].sv[1])},
                         LAMBDA a, b : a < b)
  IN  [k \in 1..Len(at) |->
        LET ln == lines[at[k]]
        IN [sys |-> ln.sv[1], sv |-> SvName(ln.sv), t |-> EpochTime(ln),
            v |-> ln.c \o FlattenSeq([q \in 1..More(ln.sv[1]) |-> lines[at[k] + q].c])]]
View(h, o, lines) == CellsOf(RecSeq(o, lines))
=============================================================================
