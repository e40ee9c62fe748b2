--------------------------------- MODULE Obs3 ---------------------------------
(* RINEX 3 observation files.  A header h has h.codes: a sequence of           *)
(* [s |-> letter, c |-> sequence of codes]; a line is                          *)
(*   [k |-> "E", y, mo, d, h, mi, s, f, fl, n]    epoch (four-digit year)      *)
(*   [k |-> "S", sv, c]   one satellite's cells <<value, lli, ssi>>            *)
(*   [k |-> "H"] header record inside an event, [k |-> "J"] foreign            *)
EXTENDS Base

EpochTime(ln) == <<Seconds(ln.y, ln.mo, ln.d, ln.h, ln.mi, ln.s), ln.f \div 10>>
IsObsEpoch(ln) == ln.k = "E" /\ ln.fl \in {0, 1}
IsL(nm) == SubSeq(nm, 1, 1) = "L"

Systems(h) == {h.codes[i].s : i \in 1..Len(h.codes)}
CodesOf(h, s) == h.codes[CHOOSE i \in 1..Len(h.codes) : h.codes[i].s = s].c
NoSuchSystem(h, o) == o.use # <<>> /\ \A s \in Systems(h) : ~Used(o, s)

Ctx(h, o) == [codes |-> [s \in Systems(h) |-> CodesOf(h, s)],
              sel |-> [s \in Systems(h) |-> LET c == CodesOf(h, s)
                                            IN [i \in 1..Len(c) |-> Wanted(o, c[i])]]]

Start == [m |-> "seek", t |-> <<0, 0>>, n |-> 0, keep |-> FALSE, ref |-> <<>>,
          out |-> <<>>, eps |-> <<>>, kept |-> <<>>]

CanReadEpoch(st, ln) == st.m = "seek" /\ IsObsEpoch(ln)
ReadEpoch(x, o, st, ln) ==
  LET t == EpochTime(ln)
      w == InWindow(o, t)
      k == w /\ Due(o, st.ref, t)
  IN  [st EXCEPT !.t = t, !.n = ln.n, !.keep = k,
                 !.ref = IF w THEN NextRef(o, @, t) ELSE @,
                 !.eps = Append(@, t),
                 !.kept = IF k THEN Append(@, t) ELSE @,
                 !.m = IF ln.n = 0 THEN "seek" ELSE "sats"]

SatCells(x, o, t, ln) ==
  LET s == Letter(ln.sv)
      c == x.codes[s]
  IN  IF ~Used(o, s) THEN {}
      ELSE UNION {ObsCells(o, t, SvName(ln.sv), c[i], ln.c[i], IsL(c[i]), TRUE) :
                  i \in {z \in 1..Min2(Len(ln.c), Len(c)) : x.sel[s][z]}}

CanReadSat(st, ln) == st.m = "sats" /\ ln.k = "S"
ReadSat(x, o, st, ln) ==
  LET new == IF st.keep THEN SatCells(x, o, st.t, ln) ELSE {}
  IN  [st EXCEPT !.out = IF new = {} THEN @ ELSE Append(@, new),
                 !.n = @ - 1, !.m = IF st.n = 1 THEN "seek" ELSE "sats"]

CanSkip(st, ln) == st.m = "seek" /\ ~IsObsEpoch(ln)
Skip(st) == st

Step(x, o, st, ln) ==
  IF CanReadEpoch(st, ln) THEN ReadEpoch(x, o, st, ln)
  ELSE IF CanReadSat(st, ln) THEN ReadSat(x, o, st, ln)
  ELSE Skip(st)

Read(h, o, lines) == LET x == Ctx(h, o)
                     IN  FoldLeft(LAMBDA st, ln : Step(x, o, st, ln), Start, lines)
Cells(st) == UNION {st.out[i] : i \in 1..Len(st.out)}
CompleteCells(st) == IF st.m = "seek" THEN Cells(st)
                     ELSE {c \in Cells(st) : c[1] # st.t}
Names(h, o) == UNION {UNION {ObsNames(o, nm, IsL(nm), TRUE) :
                        nm \in {c \in Range(CodesOf(h, s)) : Wanted(o, c)}} :
                      s \in {z \in Systems(h) : Used(o, z)}}
Sats(o, lines) == {SvName(lines[i].sv) :
                   i \in {z \in 1..Len(lines) : lines[z].k = "S" /\ Used(o, Letter(lines[z].sv))}}

------------------------------------------------------------------------------
EpochAt(lines) == {i \in 1..Len(lines) : IsObsEpoch(lines[i])}
EpochsOf(lines) == [i \in 1..Cardinality(EpochAt(lines)) |->
    EpochTime(lines[CHOOSE e \in EpochAt(lines) :
                      Cardinality({z \in EpochAt(lines) : z < e}) = i - 1])]
View(h, o, lines) ==
  LET x == Ctx(h, o)
      kept == KeptTimes(o, EpochsOf(lines))
  IN UNION {UNION {SatCells(x, o, EpochTime(lines[e]), lines[e + s]) : s \in 1..lines[e].n}
            : e \in {z \in EpochAt(lines) : EpochTime(lines[z]) \in kept}}
=============================================================================
