-------------------------------- MODULE MC_Obs3 --------------------------------
(* Bounded model of RINEX 3 observation files: writer, options and the reader  *)
(* of Obs3 line by line, against the declarative View of the whole file.       *)
EXTENDS Obs3, Json
CONSTANTS Codes, SvSeqs, MaxEpochs, Gaps, Extras, Masks, Uses, Windows, Measures, Inds, Ivs, Mode
VARIABLES ph, doc, opt, rd, pos, ne, clock
vars == <<ph, doc, opt, rd, pos, ne, clock>>

Lists(S, n) == {q \in UNION {[1..k -> S] : k \in 0..n} : Cardinality(Range(q)) = Len(q)}
Lists3 == Lists({<<"G", 1>>, <<"R", 1>>, <<"G", 12>>}, 2)
Lists2 == Lists({<<"G", 1>>, <<"E", 7>>}, 2)
One == {<< <<"G", 1>> >>}
CodesA == <<[s |-> "G", c |-> <<"C1C", "L1C">>], [s |-> "R", c |-> <<"L1C", "S1C", "C1C">>]>>
CodesB == <<[s |-> "E", c |-> <<"L1X">>], [s |-> "G", c |-> <<"C1C", "L1X">>]>>
Codes1 == <<[s |-> "G", c |-> <<"L1C">>]>>
MasksA == {<<0, 1>>, <<1, 0>>, <<1, 2>>, <<0, 0>>}
MasksB == {<<0, 1>>, <<1, 1>>}
Masks1 == {<<0, 1>>}
MasksE == {<<1, 1>>}
UsesA == {<<>>, <<"G">>, <<"R">>, <<"G", "R">>, <<"S">>, <<"E", "S">>}
Uses0 == {<<>>}
WinA == {<<>>, <<0, 0>>, <<1000, 3000>>, <<2000, 2000>>, <<1001, 1999>>, <<-5000, 1000>>, <<9000, 99000>>}
Win0 == {<<>>}
MeasA == {<<>>, <<"C1C">>, <<"L">>, <<"S1C", "L1">>, <<"L1C", "L">>, <<"X9">>}
Meas0 == {<<>>}
IvA == {<<>>, <<0>>, <<1000>>, <<1500>>, <<2000>>, <<3000>>}
Iv0 == {<<>>}
Gaps1 == {1000}
GapsA == {1000, 2000}
GapsD == {500, 1000, 2500}
Both == {TRUE, FALSE}
No == {FALSE}

Ms(x) == <<(x \div 1000), (x % 1000) * 1000>>
T0 == Seconds(2020, 12, 31, 23, 59, 58)
At(x) == Plus(<<T0, 0>>, Ms(x))
Civil(x, fl, n) ==
  LET s == x \div 1000
  IN  [k |-> "E", y |-> IF s < 2 THEN 2020 ELSE 2021, mo |-> IF s < 2 THEN 12 ELSE 1,
       d |-> IF s < 2 THEN 31 ELSE 1, h |-> IF s < 2 THEN 23 ELSE 0,
       mi |-> IF s < 2 THEN 59 ELSE (s - 2) \div 60, s |-> IF s < 2 THEN 58 + s ELSE (s - 2) % 60,
       f |-> (x % 1000) * 10000, fl |-> fl, n |-> n]
hdr == [codes |-> Codes, sys |-> "M"]
CellOf(e, k, m) ==
  IF (m[1] * k + m[2]) % 4 = 0 THEN <<-1, -1, -1>>
  ELSE <<100 + 200 * e + k, ((k + e) % 4) - 1, ((k + 2 * e) % 5) - 1>>
\* short: trailing cells of the line left out
EpochLines(x, e, svs, m, fl, short) ==
  <<Civil(x, fl, Len(svs))>> \o
  [q \in 1..Len(svs) |->
     LET n == Len(CodesOf(hdr, svs[q][1]))
     IN  [k |-> "S", sv |-> svs[q],
          c |-> [z \in 1..(n - IF short /\ q = 1 THEN 1 ELSE 0) |-> CellOf(e, 10 * q + z, m)]]]

Win(w) == IF w = <<>> THEN <<>> ELSE <<At(w[1]), At(w[2])>>
Options ==
  LET all == [use : Uses, tl : {Win(w) : w \in Windows}, meas : Measures, ind : Inds,
              iv : {IF v = <<>> THEN <<>> ELSE Ms(v[1]) : v \in Ivs}]
  IN  IF Mode = "product" THEN all
      ELSE {p \in all : Cardinality({q \in {1, 2, 3, 4, 5} :
                CASE q = 1 -> p.use # <<>> [] q = 2 -> p.tl # <<>> [] q = 3 -> p.meas # <<>>
                  [] q = 4 -> p.ind [] q = 5 -> p.iv # <<>>}) <= 1}

Init == /\ ph = "write" /\ doc = <<>> /\ opt = NoOpts /\ rd = Start /\ pos = 0 /\ ne = 0 /\ clock = 0
WriteEpoch ==
  /\ ph = "write" /\ ne < MaxEpochs
  /\ \E svs \in SvSeqs, m \in Masks, g \in Gaps, short \in (IF Extras THEN {TRUE, FALSE} ELSE {FALSE}) :
       /\ doc' = doc \o EpochLines(clock, ne, svs, m, IF ne = 1 THEN 1 ELSE 0, short)
       /\ clock' = clock + g
  /\ ne' = ne + 1 /\ UNCHANGED <<ph, opt, rd, pos>>
NoExtra == IF doc = <<>> THEN TRUE
           ELSE LET z == doc[Len(doc)]
                IN  z.k \notin {"H", "J"} /\ (z.k # "E" \/ z.fl # 4)
WriteEvent ==
  /\ ph = "write" /\ Extras /\ (NoExtra = TRUE) /\ ne <= 1
  /\ \E n \in 0..1 : doc' = doc \o <<Civil(clock, 4, n)>> \o [q \in 1..n |-> [k |-> "H"]]
  /\ UNCHANGED <<ph, opt, rd, pos, ne, clock>>
WriteForeign ==
  /\ ph = "write" /\ Extras /\ (NoExtra = TRUE) /\ ne <= 1
  /\ doc' = Append(doc, [k |-> "J"])
  /\ UNCHANGED <<ph, opt, rd, pos, ne, clock>>
Open ==
  /\ ph = "write" /\ ne > 0
  /\ ph' = "read" /\ opt' \in Options
  /\ UNCHANGED <<doc, rd, pos, ne, clock>>

ctx == Ctx(hdr, opt)
Advance(s) == rd' = s /\ pos' = pos + 1 /\ UNCHANGED <<ph, doc, opt, ne, clock>>
More == ph = "read" /\ pos < Len(doc)
DoReadEpoch == More /\ CanReadEpoch(rd, doc[pos + 1]) /\ Advance(ReadEpoch(ctx, opt, rd, doc[pos + 1]))
DoReadSat   == More /\ CanReadSat(rd, doc[pos + 1]) /\ Advance(ReadSat(ctx, opt, rd, doc[pos + 1]))
DoSkip      == More /\ CanSkip(rd, doc[pos + 1]) /\ Advance(Skip(rd))
Done == ph = "read" /\ pos = Len(doc) /\ UNCHANGED vars
Next == WriteEpoch \/ WriteEvent \/ WriteForeign \/ Open \/ DoReadEpoch \/ DoReadSat \/ DoSkip \/ Done
Spec == Init /\ [][Next]_vars

AtEnd == ph = "read" /\ pos = Len(doc)
Whole == View(hdr, opt, doc)
Exact == AtEnd => /\ Cells(rd) = Whole /\ rd.m = "seek"
                  /\ Range(rd.kept) = KeptTimes(opt, EpochsOf(doc))
                  /\ rd.eps = EpochsOf(doc)
                  /\ NoSuchSystem(hdr, opt) => Whole = {}
NeverWrong == ph = "read" =>
  /\ Cells(rd) \subseteq Whole
  /\ CompleteCells(rd) = {c \in Whole : c[1] \in Range(rd.eps) \ (IF rd.m = "seek" THEN {} ELSE {rd.t})}
IsIndicator(n) == Len(n) > 3
BaseName(n) == IF IsIndicator(n) THEN SubSeq(n, 1, Len(n) - 3) ELSE n
Restriction == (ph = "read" /\ pos = 0) =>
  LET kept == KeptTimes(opt, EpochsOf(doc))
  IN  Whole = {c \in View(hdr, [NoOpts EXCEPT !.ind = TRUE], doc) :
                 /\ c[1] \in kept
                 /\ Used(opt, SubSeq(c[2], 1, 1))
                 /\ Wanted(opt, BaseName(c[3]))
                 /\ IsIndicator(c[3]) => opt.ind}
\* codes are looked up in the satellite's own system
OwnCodes == (ph = "read" /\ pos = 0) =>
  \A c \in View(hdr, NoOpts, doc) : c[3] \in Range(CodesOf(hdr, SubSeq(c[2], 1, 1)))
Emit == ph = "read" => PrintT("@@" \o ToJson([fam |-> "obs3", h |-> hdr, lines |-> doc, o |-> opt])) /\ FALSE
=============================================================================
