-------------------------------- MODULE MC_Sp3 ---------------------------------
(* Bounded model of SP3 files.                                                 *)
EXTENDS Sp3, Json
CONSTANTS Svs, MaxEpochs, Vel, Extras
VARIABLES ph, doc, rd, pos, ne, left
vars == <<ph, doc, rd, pos, ne, left>>
SvsA == << <<"G", 1, "0">>, <<"R", 2, "0">>, <<"G", 12, "0">> >>
SvsB == << <<" ", 1, " ">>, <<" ", 12, " ">> >>
SvsC == << <<"G", 1, " ">> >>
hdr == [svs |-> Svs, ver |-> IF Svs[1][1] = " " THEN "a" ELSE "c", pv |-> IF Vel THEN "V" ELSE "P"]

\* epoch ne is 15 min later than the last; second, minute and hour may be written as 60, 60, 24
Epoch(n, style) ==
  CASE n = 0 -> [k |-> "T", y |-> 2020, mo |-> 2, d |-> 28, h |-> 23, mi |-> 45, s |-> 0, f |-> 0]
    [] n = 1 -> IF style = 0 THEN [k |-> "T", y |-> 2020, mo |-> 2, d |-> 29, h |-> 0, mi |-> 0, s |-> 0, f |-> 0]
                ELSE IF style = 1 THEN [k |-> "T", y |-> 2020, mo |-> 2, d |-> 28, h |-> 23, mi |-> 59, s |-> 60, f |-> 0]
                ELSE IF style = 2 THEN [k |-> "T", y |-> 2020, mo |-> 2, d |-> 28, h |-> 23, mi |-> 60, s |-> 0, f |-> 0]
                ELSE [k |-> "T", y |-> 2020, mo |-> 2, d |-> 28, h |-> 24, mi |-> 0, s |-> 0, f |-> 0]
    [] OTHER -> [k |-> "T", y |-> 2020, mo |-> 2, d |-> 29, h |-> 0, mi |-> 15 * (n - 1), s |-> 0, f |-> 50000000]
Value(n, k, z) == 100 + 60 * n + 8 * k + z

Init == ph = "write" /\ doc = <<>> /\ rd = Start /\ pos = 0 /\ ne = 0 /\ left = <<>>
WriteEpoch ==
  /\ ph = "write" /\ ne < MaxEpochs /\ left = <<>>
  /\ \E s \in (IF ne = 1 THEN 0..3 ELSE {0}) : doc' = Append(doc, Epoch(ne, s))
  /\ ne' = ne + 1 /\ left' = [i \in 1..Len(Svs) |-> i]
  /\ UNCHANGED <<ph, rd, pos>>
WriteSat ==
  /\ ph = "write" /\ left # <<>>
  /\ LET i == left[1]
         p == [k |-> "P", sv |-> Svs[i], c |-> [z \in 1..4 |-> Value(ne, i, z)]]
         v == [k |-> "V", sv |-> Svs[i], c |-> [z \in 1..4 |-> Value(ne, i, z + 4)]]
     IN  \/ doc' = doc \o IF Vel THEN <<p, v>> ELSE <<p>>
         \/ Extras /\ doc' = doc                                   \* absent from this epoch
         \/ Extras /\ i = 1 /\ doc' = doc \o IF Vel THEN <<p, [k |-> "J"], v, [k |-> "J"]>> ELSE <<p, [k |-> "J"]>>
  /\ left' = Tail(left) /\ UNCHANGED <<ph, rd, pos, ne>>
Open ==
  /\ ph = "write" /\ ne > 0 /\ left = <<>> /\ ph' = "read"
  /\ \E e \in {0, 1} : doc' = IF e = 1 THEN Append(doc, [k |-> "EOF"]) ELSE doc
  /\ UNCHANGED <<rd, pos, ne, left>>
More == ph = "read" /\ pos < Len(doc)
Advance(s) == rd' = s /\ pos' = pos + 1 /\ UNCHANGED <<ph, doc, ne, left>>
DoReadEpoch == More /\ CanReadEpoch(rd, doc[pos + 1]) /\ Advance(ReadEpoch(rd, doc[pos + 1]))
DoReadSat   == More /\ CanReadSat(rd, doc[pos + 1]) /\ Advance(ReadSat(rd, doc[pos + 1]))
DoClose     == More /\ CanClose(rd, doc[pos + 1]) /\ Advance(Close(rd))
DoSkip      == More /\ doc[pos + 1].k = "J" /\ Advance(rd)
Done == ph = "read" /\ pos = Len(doc) /\ UNCHANGED vars
Next == WriteEpoch \/ WriteSat \/ Open \/ DoReadEpoch \/ DoReadSat \/ DoClose \/ DoSkip \/ Done
Spec == Init /\ [][Next]_vars

Whole == View(doc)
Exact == (ph = "read" /\ pos = Len(doc)) => Cells(rd) = Whole /\ Len(rd.eps) = ne
NeverWrong == ph = "read" => Cells(rd) \subseteq Whole /\
  CompleteCells(rd) = {c \in Whole : \E i \in 1..(Len(rd.eps) - 1) : rd.eps[i] = c[1]}
\* epochs are in order however midnight is written, each satellite at most once in each
Ordered == ph = "read" => \A i \in 1..(Len(rd.eps) - 1) : Less(rd.eps[i], rd.eps[i + 1])
Functional == (ph = "read" /\ pos = 0) =>
  Cardinality({<<c[1], c[2], c[3]>> : c \in Whole}) = Cardinality(Whole)
Emit == ph = "read" => PrintT("@@" \o ToJson([fam |-> "sp3", h |-> hdr, lines |-> doc, o |-> NoOpts])) /\ FALSE
=============================================================================
