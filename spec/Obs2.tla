--------------------------------- MODULE Obs2 ---------------------------------
(* RINEX 2 observation files: the reader as a state machine over text lines.   *)
(* A header h has h.types (sequence of type names) and h.sys; a line is        *)
(*   [k |-> "E", y, mo, d, h, mi, s, f, fl, n, svs]   epoch: two-digit year,   *)
(*        f = tenths of microseconds, flag fl, n satellites (or records), the  *)
(*        first SatsPerLine of them in svs                                     *)
(*   [k |-> "C", svs]   continuation of the satellite list                     *)
(*   [k |-> "D", c]     data: up to PerLine cells <<value, lli, ssi>>          *)
(*   [k |-> "H"]        header record inside an event; [k |-> "J"] foreign     *)
EXTENDS Base
CONSTANTS PerLine, SatsPerLine

EpochTime(ln) == <<Seconds(FullYear(ln.y), ln.mo, ln.d, ln.h, ln.mi, ln.s), ln.f \div 10>>
IsObsEpoch(ln) == ln.k = "E" /\ ln.fl \in {0, 1}

IsL(nm) == SubSeq(nm, 1, 1) = "L"
IsS(nm) == SubSeq(nm, 1, 1) = "S"

(* Derived once per read *)
Ctx(h, o) == [types |-> h.types,
              nl    |-> CeilDiv(Len(h.types), PerLine),
              sel   |-> [i \in 1..Len(h.types) |-> Wanted(o, h.types[i])],
              lli   |-> [i \in 1..Len(h.types) |-> IsL(h.types[i])],
              ssi   |-> [i \in 1..Len(h.types) |-> ~IsS(h.types[i])]]

Start == [m |-> "seek", t |-> <<0, 0>>, svs |-> <<>>, n |-> 0, j |-> 1, p |-> 0,
          keep |-> FALSE, ref |-> <<>>, out |-> <<>>, eps |-> <<>>, kept |-> <<>>, nsv |-> {}]

After(st) == \* where reading continues once the satellite list is complete
  IF st.n = 0 THEN "seek" ELSE "data"

(* --- actions --- *)
CanReadEpoch(st, ln) == st.m = "seek" /\ IsObsEpoch(ln)
ReadEpoch(x, o, st, ln) ==
  LET t  == EpochTime(ln)
      w  == InWindow(o, t)
      k  == w /\ Due(o, st.ref, t)
      s1 == [st EXCEPT !.t = t, !.keep = k, !.svs = ln.svs, !.n = ln.n, !.j = 1, !.p = 0,
                       !.ref = IF w THEN NextRef(o, @, t) ELSE @,
                       !.eps = Append(@, t),
                       !.kept = IF k THEN Append(@, t) ELSE @]
  IN  [s1 EXCEPT !.m = IF Len(ln.svs) < ln.n THEN "list" ELSE After(s1)]

CanReadList(st, ln) == st.m = "list" /\ ln.k = "C"
ReadList(x, o, st, ln) ==
  LET s1 == [st EXCEPT !.svs = @ \o ln.svs]
  IN  [s1 EXCEPT !.m = IF Len(s1.svs) < st.n THEN "list" ELSE After(s1)]

CanReadData(st, ln) == st.m = "data" /\ ln.k = "D"
ReadData(x, o, st, ln) ==
  LET sv   == st.svs[st.j]
      base == st.p * PerLine
      ids  == {i \in 1..Len(ln.c) : base + i <= Len(x.types) /\ x.sel[base + i]}
      new  == IF st.keep /\ Used(o, Letter(sv))
              THEN UNION {ObsCells(o, st.t, SvName(sv), x.types[base + i], ln.c[i],
                                   x.lli[base + i], x.ssi[base + i]) : i \in ids}
              ELSE {}
      last == st.p + 1 = x.nl
      done == last /\ st.j = st.n
  IN  [st EXCEPT !.out = IF new = {} THEN @ ELSE Append(@, new),
                 !.p = IF last THEN 0 ELSE @ + 1,
                 !.j = IF last THEN @ + 1 ELSE @,
                 !.m = IF done THEN "seek" ELSE "data"]

CanSkip(st, ln) == st.m = "seek" /\ ~IsObsEpoch(ln)   \* events, their records, foreign lines
Skip(st) == st

Step(x, o, st, ln) ==
  IF CanReadEpoch(st, ln) THEN ReadEpoch(x, o, st, ln)
  ELSE IF CanReadList(st, ln) THEN ReadList(x, o, st, ln)
  ELSE IF CanReadData(st, ln) THEN ReadData(x, o, st, ln)
  ELSE Skip(st)

(* --- what a read gives --- *)
Read(h, o, lines) == LET x == Ctx(h, o)
                     IN  FoldLeft(LAMBDA st, ln : Step(x, o, st, ln), Start, lines)
Cells(st) == UNION {st.out[i] : i \in 1..Len(st.out)}
\* the part of the cells that belongs to complete epochs
CompleteCells(st) == IF st.m = "seek" THEN Cells(st)
                     ELSE {c \in Cells(st) : c[1] # st.t}
Names(h, o) == UNION {ObsNames(o, h.types[i], IsL(h.types[i]), ~IsS(h.types[i])) :
                      i \in {k \in 1..Len(h.types) : Wanted(o, h.types[k])}}
Sats(o, lines) == UNION {{SvName(lines[i].svs[k]) :
                           k \in {q \in 1..Len(lines[i].svs) : Used(o, Letter(lines[i].svs[q]))}} :
                         i \in {z \in 1..Len(lines) : lines[z].k = "C" \/ IsObsEpoch(lines[z])}}

------------------------------------------------------------------------------
(* --- the same thing said declaratively, by position of the lines --- *)
EpochAt(lines) == {i \in 1..Len(lines) : IsObsEpoch(lines[i])}
EpochsOf(lines) == [i \in 1..Cardinality(EpochAt(lines)) |->
    EpochTime(lines[CHOOSE e \in EpochAt(lines) :
                      Cardinality({z \in EpochAt(lines) : z < e}) = i - 1])]
SvAt(lines, e, s) ==   \* s-th satellite (1-based) of the epoch starting at line e
  LET r == (s - 1) \div SatsPerLine
  IN  lines[e + r].svs[s - r * SatsPerLine]
View(h, o, lines) ==
  LET nl   == CeilDiv(Len(h.types), PerLine)
      kept == KeptTimes(o, EpochsOf(lines))
  IN UNION {
       LET ln  == lines[e]
           d0  == e + Max2(CeilDiv(ln.n, SatsPerLine), 1)   \* first data line
       IN UNION {
            LET p == (q - 1) \div PerLine
                c == lines[d0 + (s - 1) * nl + p].c
                i == q - p * PerLine
            IN  IF i <= Len(c)
                THEN ObsCells(o, EpochTime(ln), SvName(SvAt(lines, e, s)), h.types[q], c[i],
                              IsL(h.types[q]), ~IsS(h.types[q]))
                ELSE {}
            : s \in {z \in 1..ln.n : Used(o, Letter(SvAt(lines, e, z)))},
              q \in {z \in 1..Len(h.types) : Wanted(o, h.types[z])}}
       : e \in {z \in EpochAt(lines) : EpochTime(lines[z]) \in kept}}
=============================================================================
