-------------------------------- MODULE MC_Nav3 --------------------------------
(* Bounded model of RINEX 3 navigation files of mixed systems.                 *)
EXTENDS Nav3, Json
CONSTANTS MaxRecs, Layouts, Times, Windows, Uses, Extras
hdr0 == [sys |-> "M"]
VARIABLES ph, doc, opt, rd, pos, nr
vars == <<ph, doc, opt, rd, pos, nr>>

\* <<satellite, number of values, number of blank fields written after them>>
LayoutsA == {<< <<"G", 1>>, 29, 0>>, << <<"G", 1>>, 28, 0>>, << <<"R", 2>>, 15, 0>>, << <<"E", 3>>, 28, 1>>}
LayoutsAll ==  \* each layout on a satellite of its own
  {<< <<"G", n - 27>>, n, 0>> : n \in 28..31} \cup {<< <<"J", n - 27>>, n, 0>> : n \in 28..31}
  \cup {<< <<"C", n>>, n, 0>> : n \in 27..31} \cup {<< <<"E", n - 26>>, n, 0>> : n \in {27, 28, 29, 31}}
  \cup {<< <<"I", n - 26>>, n, 0>> : n \in {28, 31}} \cup {<< <<"R", 24>>, 15, 0>>, << <<"S", 20>>, 15, 0>>}
  \cup {<< <<"G", 32>>, 28, 3>>, << <<"J", 10>>, 29, 2>>}
TimesA == {0, 2, 25}
Times1 == {0, 2}
WinA == {<<>>, <<0, 0>>, <<0, 2>>, <<2, 25>>, <<3, 4>>}
Win0 == {<<>>}
UsesA == {<<>>, <<"G">>, <<"R", "E">>, <<"S">>}
Uses0 == {<<>>}

T0 == Seconds(2000, 2, 28, 23, 0, 16)
At(hr) == <<T0 + 3600 * hr, 0>>
TimeFields(t) == LET hr == t + 23
                     d == hr \div 24
                 IN  [mo |-> IF d < 2 THEN 2 ELSE 3, d |-> IF d < 2 THEN 28 + d ELSE d - 1, h |-> hr % 24]
SizesOf(sys, n) ==
  IF sys \in {"R", "S"} THEN <<3, 4, 4, 4>>
  ELSE IF sys = "C" /\ n = 27 THEN <<3, 4, 4, 4, 4, 2, 4, 2>>
  ELSE IF sys = "C" /\ n = 28 THEN <<3, 4, 4, 4, 4, 3, 4, 2>>
  ELSE IF sys = "E" /\ n = 27 THEN <<3, 4, 4, 4, 4, 3, 4, 1>>
  ELSE <<3, 4, 4, 4, 4, 4, 4, 4>>
RecordLines(n, ly, t) ==
  LET sv == ly[1]
      v == [k \in 1..(ly[2] + ly[3]) |->
              IF k > ly[2] THEN -1
              ELSE IF k > 3 /\ k < ly[2] /\ (n + k) % 9 = 0 THEN -1
              ELSE IF (n + k) % 7 = 0 /\ k < ly[2] THEN 0 ELSE 100 + 40 * n + k]
      sz == SizesOf(sv[1], ly[2] + ly[3])
      RECURSIVE Off(_)
      Off(q) == IF q = 1 THEN 0 ELSE Off(q - 1) + sz[q - 1]
      Part(q) == SubSeq(v, Off(q) + 1, Min2(Len(v), Off(q) + sz[q]))
      a == TimeFields(t)
  IN  <<[k |-> "E", sv |-> sv, y |-> 2000, mo |-> a.mo, d |-> a.d, h |-> a.h, mi |-> 0, s |-> 16, f |-> 0,
         c |-> Part(1)]>> \o [q \in 1..(Len(sz) - 1) |-> [k |-> "D", c |-> Part(q + 1)]]

Init == ph = "write" /\ doc = <<>> /\ opt = NoOpts /\ rd = Start /\ pos = 0 /\ nr = 0
WriteRecord ==
  /\ ph = "write" /\ nr < MaxRecs
  /\ \E ly \in Layouts, t \in Times : doc' = doc \o RecordLines(nr, ly, t)
  /\ nr' = nr + 1 /\ UNCHANGED <<ph, opt, rd, pos>>
WriteForeign ==
  /\ ph = "write" /\ Extras /\ nr = 1 /\ doc[Len(doc)].k # "J"
  /\ doc' = Append(doc, [k |-> "J"])
  /\ UNCHANGED <<ph, opt, rd, pos, nr>>
Open ==
  /\ ph = "write" /\ nr > 0 /\ ph' = "read"
  /\ \E w \in Windows, u \in Uses :
       opt' = [NoOpts EXCEPT !.tl = IF w = <<>> THEN <<>> ELSE <<At(w[1]), At(w[2])>>, !.use = u]
  /\ UNCHANGED <<doc, rd, pos, nr>>
More2 == ph = "read" /\ pos < Len(doc)
Advance(s) == rd' = s /\ pos' = pos + 1 /\ UNCHANGED <<ph, doc, opt, nr>>
DoReadFirst == More2 /\ CanReadFirst(rd, doc[pos + 1]) /\ Advance(ReadFirst(hdr0, opt, rd, doc[pos + 1]))
DoReadMore  == More2 /\ CanReadMore(rd, doc[pos + 1]) /\ Advance(ReadMore(hdr0, opt, rd, doc[pos + 1]))
DoSkip      == More2 /\ CanSkip(rd, doc[pos + 1]) /\ Advance(Skip(rd))
Done == ph = "read" /\ pos = Len(doc) /\ UNCHANGED vars
Next == WriteRecord \/ WriteForeign \/ Open \/ DoReadFirst \/ DoReadMore \/ DoSkip \/ Done
Spec == Init /\ [][Next]_vars

AtEnd == ph = "read" /\ pos = Len(doc)
Whole == View(hdr0, opt, doc)
Exact == AtEnd => /\ CellsOf(CompleteRecs(rd)) = Whole /\ AllRecs(rd) = CompleteRecs(rd)
                  /\ rd.eps = {EpochTime(doc[i]) : i \in RecAt(doc)}
\* every record is kept under its own name (C04)
AllKept == (ph = "read" /\ pos = 0) =>
  LET rs == RecSeq(opt, doc)
  IN  /\ ~BadLayout(rs)
      /\ Cardinality({<<rs[i].t, Name(rs, i)>> : i \in 1..Len(rs)}) = Len(rs)
      /\ \A i \in 1..Len(rs), k \in 1..28 :
           k <= Len(rs[i].v) /\ rs[i].v[k] >= 100 =>
             \E c \in Whole : c[1] = rs[i].t /\ c[2] = Name(rs, i) /\ c[4] \in {rs[i].v[k], -rs[i].v[k]}
\* cut off anywhere: complete records only differ from the full file by the layout
\* their satellite's longest record gives
NeverWrong == ph = "read" =>
  /\ \A c \in CellsOf(CompleteRecs(rd)) : c[4] # 0 => c \in Whole \/ BadLayout(CompleteRecs(rd))
                                                  \/ \E w \in Whole : w[1] = c[1] /\ w[2] = c[2] /\ w[4] = c[4]
  /\ {c \in Whole : \E i \in 1..Len(rd.recs) : Name(rd.recs, i) = c[2] /\ rd.recs[i].t = c[1]
                      /\ c[3] \in Range(Layout(rd.recs, i))} \subseteq CellsOf(CompleteRecs(rd))
Restriction == (ph = "read" /\ pos = 0 /\ opt.tl = <<>>) =>
  Whole = {c \in View(hdr0, NoOpts, doc) : Used(opt, SubSeq(c[2], 1, 1))}
Emit == ph = "read" => PrintT("@@" \o ToJson([fam |-> "nav3", h |-> hdr0, lines |-> doc, o |-> opt])) /\ FALSE
=============================================================================
