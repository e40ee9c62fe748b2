-------------------------------- MODULE Header --------------------------------
(* The first line and the header records of a file, and what a dataset states   *)
(* about itself.                                                                *)
EXTENDS Base

------------------------------------------------------------------------------
(* First line: [lead, form, major, ty, nav, sy, label]                          *)
(*   lead  : blank lines before it                                              *)
(*   form  : "rinex", "sp3" or "other" (no such line at all)                    *)
(*   major : whole part of the version, -1 when it is no number; for "sp3" the  *)
(*           position of the version letter in "abcd", 0 for any other          *)
(*   ty    : the letter of the kind (column 21)                                 *)
(*   sy    : the letter of the system (column 41)                               *)
(*   label : "ok", "bad" (80 columns, another label) or "short"                 *)
SysObs2 == {"G", "R", "E", "C", "J", "S", "M", " "}
SysObs3 == {"G", "R", "E", "C", "J", "I", "S", "M"}
NavLetter2 == [N |-> "G", G |-> "R", E |-> "E"]

\* lead: up to eight blank lines may come before the first line
Lead(f) == f.lead <= 8

Kinds == {"obs", "nav", "sp3"}
\* what the first line says: kind "obs", "nav" or "sp3", its system, and whether
\* data of it can be read; "refuse"; "other": something with no data;
\* "open": the format standard does not say
Classify(f) ==
  CASE f.form = "other" \/ ~Lead(f) -> [k |-> "refuse", s |-> ""]
    [] f.form = "sp3"   -> IF f.major \in {1, 3, 4} THEN [k |-> "sp3", s |-> ""] ELSE [k |-> "refuse", s |-> ""]
    [] f.label = "bad" \/ f.major = -1 -> [k |-> "refuse", s |-> ""]
    [] f.label = "short" -> [k |-> "open", s |-> ""]
    [] f.major = 2 -> CASE f.ty = "O" -> IF f.sy = " " THEN [k |-> "obs", s |-> "G"] ELSE IF f.sy \in SysObs2 THEN [k |-> "obs", s |-> f.sy] ELSE [k |-> "open", s |-> ""]
                        [] f.ty \in {"N", "G", "E"} -> [k |-> "nav", s |-> NavLetter2[f.ty]]
                        [] f.ty \in {"H", "J"} -> [k |-> "nonav", s |-> ""]       \* SBAS and QZSS navigation of RINEX 2
                        [] OTHER -> [k |-> "other", s |-> ""]
    [] f.major = 3 -> CASE f.ty = "O" -> IF f.sy \in SysObs3 THEN [k |-> "obs", s |-> f.sy] ELSE [k |-> "open", s |-> ""]
                        [] f.ty = "N" -> [k |-> "nav", s |-> f.sy]
                        [] f.ty \in {"G", "E", "H", "J"} -> [k |-> "open", s |-> ""]
                        [] OTHER -> [k |-> "other", s |-> ""]
    [] f.major = 1 -> [k |-> "open", s |-> ""]
    [] OTHER -> [k |-> "other", s |-> ""]            \* versions 0, 4, 5 ...

------------------------------------------------------------------------------
(* Header records: [lab, txt, num, t, sys, key, w]                              *)
(*   lab : label, txt : content with single blanks, w : its words               *)
(*   num : numbers of the record in canonical text, t : time                    *)
(*   sys : time system of a first epoch, key : kind of a correction             *)
Labels(rs) == {rs[i].lab : i \in 1..Len(rs)}
Of(rs, lab) == SelectSeq(rs, LAMBDA r : r.lab = lab)
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
            ELSE IF ss[1] = "" THEN Join(Tail(ss))
            ELSE LET q == Join(Tail(ss)) IN IF q = "" THEN ss[1] ELSE ss[1] \o " " \o q
Texts(rs) == [i \in 1..Len(rs) |-> rs[i].txt]

\* labels with a meaning of their own
TypesLab(v) == IF v = 2 THEN "# / TYPES OF OBSERV" ELSE "SYS / # / OBS TYPES"
Apart(fam) == CASE fam = "obs2" -> {"# / TYPES OF OBSERV", "# OF SATELLITES"}
                [] fam = "obs3" -> {"SYS / # / OBS TYPES"}
                [] fam = "nav3" -> {"IONOSPHERIC CORR", "TIME SYSTEM CORR"}
                [] OTHER -> {}
\* observation headers: repeated labels are joined; navigation headers: the last one
Obs(fam) == fam \in {"obs2", "obs3"}
HeadText(fam, rs, lab) == LET q == Of(rs, lab) IN IF Obs(fam) THEN Join(Texts(q)) ELSE q[Len(q)].txt
HeadLabels(fam, rs) == Labels(rs) \ Apart(fam)
HeadView(fam, rs) == [lab \in HeadLabels(fam, rs) |-> HeadText(fam, rs, lab)]

First(rs, lab) == LET q == Of(rs, lab) IN IF q = <<>> THEN <<>> ELSE <<q[1]>>
Nums(q) == IF q = <<>> THEN <<>> ELSE q[1].num
\* of repeated intervals and epochs the first counts, of positions the first
\* three numbers (a record may be blank)
RECURSIVE AllNums(_)
AllNums(q) == IF q = <<>> THEN <<>> ELSE q[1].num \o AllNums(Tail(q))
Position(rs) == LET n == AllNums(Of(rs, "APPROX POSITION XYZ")) IN SubSeq(n, 1, Min2(3, Len(n)))
Interval(rs) == Nums(First(rs, "INTERVAL"))
Time(rs, lab) == LET q == First(rs, lab) IN IF q = <<>> THEN <<>> ELSE q[1].t
TimeSystemText(rs) == LET q == First(rs, "TIME OF FIRST OBS") IN IF q = <<>> THEN "" ELSE q[1].sys
Model(rs) == LET q == First(rs, "REC # / TYPE / VERS") IN IF q = <<>> THEN <<>> ELSE <<q[1].key>>

\* corrections of navigation headers: the last record of each kind
Corr(rs, lab) ==
  LET q == Of(rs, lab)
  IN  [k \in {q[i].key : i \in 1..Len(q)} |-> LET z == SelectSeq(q, LAMBDA r : r.key = k) IN z[Len(z)].num]

------------------------------------------------------------------------------
(* What a dataset states *)
LetterSystem == [G |-> "GPS", R |-> "GLO", E |-> "GAL", J |-> "QZS", C |-> "BDT", I |-> "IRN"]
TimeSystem(sy, rs) == LET s == IF sy = " " THEN "G" ELSE sy IN IF s = "M" THEN TimeSystemText(rs) ELSE LetterSystem[s]

\* twice the median of the spacings
Minus(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + 1000000 - b[2]>>
Spacings(ts) == SortSeq([i \in 1..(Len(ts) - 1) |-> Minus(ts[i + 1], ts[i])], LAMBDA a, b : Less(a, b))
TwiceMedian(ts) == LET d == Spacings(ts)
                       n == Len(d)
                   IN  IF n % 2 = 1 THEN Plus(d[(n + 1) \div 2], d[(n + 1) \div 2]) ELSE Plus(d[n \div 2], d[n \div 2 + 1])

Pair(c, a, b) == IF a \in DOMAIN c /\ b \in DOMAIN c THEN <<c[a] \o c[b]>> ELSE <<>>
One(c, a) == IF a \in DOMAIN c THEN <<c[a]>> ELSE <<>>
IonoNames == {"GPS", "GAL", "QZS", "BDS", "IRN"}
Iono3(c) == [GPS |-> Pair(c, "GPSA", "GPSB"), GAL |-> One(c, "GAL"), QZS |-> Pair(c, "QZSA", "QZSB"),
             BDS |-> Pair(c, "BDSA", "BDSB"), IRN |-> Pair(c, "IRNA", "IRNB")]
Iono2(rs) == LET a == Of(rs, "ION ALPHA")
                 b == Of(rs, "ION BETA")
             IN  [x \in IonoNames |-> IF x = "GPS" /\ a # <<>> /\ b # <<>> THEN <<a[Len(a)].num \o b[Len(b)].num>> ELSE <<>>]
=============================================================================
