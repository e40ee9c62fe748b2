-------------------------------- MODULE MC_Obs2 --------------------------------
(* Bounded model of RINEX 2 observation files: a writer composes a file epoch  *)
(* by epoch, options are chosen, and the reader of Obs2 reads it line by line. *)
(* In every state of the reader (= the file cut off at every line) what has    *)
(* been read is compared with the declarative View of the whole file.          *)
EXTENDS Obs2, Json
CONSTANTS Types,     \* sequence of observation types
          SvSeqs,    \* satellite lists an epoch may have
          MaxEpochs, Gaps, Extras, \* gaps in ms; Extras: foreign records written too
          Masks,     \* blank patterns <<a, b>>: cell k blank iff (a*k + b) % 4 = 0
          Uses, Windows, Measures, Inds, Ivs,   \* windows as pairs of ms, ivs in ms
          Mode       \* "product": all combinations of options, "single": one at a time
VARIABLES ph, doc, opt, rd, pos, ne, clock

vars == <<ph, doc, opt, rd, pos, ne, clock>>

\* AllLists(S, n): every satellite list without repetition of up to n of S
Lists(S, n) == {q \in UNION {[1..k -> S] : k \in 0..n} : Cardinality(Range(q)) = Len(q)}
Pool3 == {<<"G", 1>>, <<"R", 1>>, <<" ", 2>>}
Lists3 == Lists(Pool3, 2)
Lists2 == Lists({<<"G", 1>>, <<"R", 7>>}, 2)
One == {<< <<"G", 1>> >>}
Big(n) == [k \in 1..n |-> IF k % 3 = 0 THEN <<"R", k>> ELSE <<"G", k>>]
Wraps == {Big(1), Big(12), Big(13), Big(24), Big(25)}
TypesA == <<"C1", "L1">>
TypesB == <<"L1", "S1", "P2">>
TypesC == <<"C1", "L1", "D1", "S1", "L2", "P2">>
Types1 == <<"L1">>
MasksA == {<<0, 1>>, <<1, 0>>, <<1, 2>>, <<0, 0>>}
MasksB == {<<0, 1>>, <<1, 1>>}
Masks1 == {<<0, 1>>}
MasksE == {<<1, 1>>}
Gaps1 == {1000}
UsesA == {<<>>, <<"G">>, <<"R">>, <<"G", "R">>, <<"E">>}
Uses0 == {<<>>}
WinA == {<<>>, <<0, 0>>, <<1000, 3000>>, <<2000, 2000>>, <<1001, 1999>>, <<-5000, 1000>>, <<9000, 99000>>}
Win0 == {<<>>}
MeasA == {<<>>, <<"C1">>, <<"L">>, <<"S1", "L1">>, <<"L1", "L">>, <<"X9">>}
Meas0 == {<<>>}
IvA == {<<>>, <<0>>, <<1000>>, <<1500>>, <<2000>>, <<3000>>}
Iv0 == {<<>>}
GapsA == {1000, 2000}
GapsD == {500, 1000, 2500}
Both == {TRUE, FALSE}
No == {FALSE}

Ms(x) == <<(x \div 1000), (x % 1000) * 1000>>
T0 == Seconds(2020, 2, 28, 23, 59, 58)
At(x) == Plus(<<T0, 0>>, Ms(x))
Civil(x, fl, n, svs) ==
  LET s == x \div 1000
  IN  [k |-> "E", y |-> 20, mo |-> 2, d |-> IF s < 2 THEN 28 ELSE 29,
       h |-> IF s < 2 THEN 23 ELSE 0, mi |-> IF s < 2 THEN 59 ELSE (s - 2) \div 60,
       s |-> IF s < 2 THEN 58 + s ELSE (s - 2) % 60, f |-> (x % 1000) * 10000,
       fl |-> fl, n |-> n, svs |-> svs]
hdr == [types |-> Types, sys |-> "M"]
nl == CeilDiv(Len(Types), PerLine)

CellOf(e, k, m) ==
  IF (m[1] * k + m[2]) % 4 = 0 THEN <<-1, -1, -1>>
  ELSE <<100 + 200 * e + k, ((k + e) % 4) - 1, ((k + 2 * e) % 5) - 1>>
DataLines(e, n, m) ==
  [q \in 1..(n * nl) |->
     LET s == (q - 1) \div nl
         p == (q - 1) % nl
     IN  [k |-> "D", c |-> [z \in 1..Min2(PerLine, Len(Types) - p * PerLine) |->
                              CellOf(e, s * Len(Types) + p * PerLine + z, m)]]]
ListLines(svs) ==
  [q \in 1..(Max2(CeilDiv(Len(svs), SatsPerLine), 1) - 1) |->
     [k |-> "C", svs |-> SubSeq(svs, q * SatsPerLine + 1, Min2(Len(svs), (q + 1) * SatsPerLine))]]
EpochLines(x, e, svs, m, fl) ==
  <<Civil(x, fl, Len(svs), SubSeq(svs, 1, Min2(SatsPerLine, Len(svs))))>>
  \o ListLines(svs) \o DataLines(e, Len(svs), m)

Win(w) == IF w = <<>> THEN <<>> ELSE <<At(w[1]), At(w[2])>>
Options ==
  LET all == [use : Uses, tl : {Win(w) : w \in Windows}, meas : Measures, ind : Inds,
              iv : {IF v = <<>> THEN <<>> ELSE Ms(v[1]) : v \in Ivs}]
  IN  IF Mode = "product" THEN all
      ELSE {p \in all : Cardinality({q \in {1, 2, 3, 4, 5} :
                CASE q = 1 -> p.use # <<>> [] q = 2 -> p.tl # <<>> [] q = 3 -> p.meas # <<>>
                  [] q = 4 -> p.ind [] q = 5 -> p.iv # <<>>}) <= 1}

Init == /\ ph = "write" /\ doc = <<>> /\ opt = NoOpts /\ rd = Start /\ pos = 0 /\ ne = 0 /\ clock = 0

WriteEpoch ==
  /\ ph = "write" /\ ne < MaxEpochs
  /\ \E svs \in SvSeqs, m \in Masks, g \in Gaps :
       /\ doc' = doc \o EpochLines(clock, ne, svs, m, IF ne = 1 THEN 1 ELSE 0)
       /\ clock' = clock + g
  /\ ne' = ne + 1 /\ UNCHANGED <<ph, opt, rd, pos>>
NoExtra == IF doc = <<>> THEN TRUE
           ELSE LET z == doc[Len(doc)]
                IN  z.k \notin {"H", "J"} /\ (z.k # "E" \/ z.fl # 4)
WriteEvent ==
  /\ ph = "write" /\ Extras /\ (NoExtra = TRUE) /\ ne <= 1
  /\ \E n \in 0..1 :
       doc' = doc \o <<Civil(clock, 4, n, <<>>)>> \o [q \in 1..n |-> [k |-> "H"]]
  /\ UNCHANGED <<ph, opt, rd, pos, ne, clock>>
WriteForeign ==
  /\ ph = "write" /\ Extras /\ (NoExtra = TRUE) /\ ne <= 1
  /\ doc' = Append(doc, [k |-> "J"])
  /\ UNCHANGED <<ph, opt, rd, pos, ne, clock>>
Open ==
  /\ ph = "write" /\ ne > 0
  /\ ph' = "read" /\ opt' \in Options
  /\ UNCHANGED <<doc, rd, pos, ne, clock>>

ctx == Ctx(hdr, opt)
Advance(s) == rd' = s /\ pos' = pos + 1 /\ UNCHANGED <<ph, doc, opt, ne, clock>>
More == ph = "read" /\ pos < Len(doc)
DoReadEpoch == More /\ CanReadEpoch(rd, doc[pos + 1]) /\ Advance(ReadEpoch(ctx, opt, rd, doc[pos + 1]))
DoReadList  == More /\ CanReadList(rd, doc[pos + 1]) /\ Advance(ReadList(ctx, opt, rd, doc[pos + 1]))
DoReadData  == More /\ CanReadData(rd, doc[pos + 1]) /\ Advance(ReadData(ctx, opt, rd, doc[pos + 1]))
DoSkip      == More /\ CanSkip(rd, doc[pos + 1]) /\ Advance(Skip(rd))
Done == ph = "read" /\ pos = Len(doc) /\ UNCHANGED vars
Next == WriteEpoch \/ WriteEvent \/ WriteForeign \/ Open
        \/ DoReadEpoch \/ DoReadList \/ DoReadData \/ DoSkip \/ Done
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
AtEnd == ph = "read" /\ pos = Len(doc)
Whole == View(hdr, opt, doc)

\* exactness: what has been read in the end is the view of the file (C01, C06..C10)
Exact == AtEnd => /\ Cells(rd) = Whole /\ rd.m = "seek"
                  /\ Range(rd.kept) = KeptTimes(opt, EpochsOf(doc))
                  /\ rd.eps = EpochsOf(doc)
\* cut off at any line: nothing wrong, and all of the complete epochs (C19)
NeverWrong == ph = "read" =>
  /\ Cells(rd) \subseteq Whole
  /\ CompleteCells(rd) = {c \in Whole : c[1] \in Range(rd.eps) \ (IF rd.m = "seek" THEN {} ELSE {rd.t})}
\* every option is a restriction of the full read (C06, C07, C08, C09, C10)
IsIndicator(n) == Len(n) > 3
BaseName(n) == IF IsIndicator(n) THEN SubSeq(n, 1, Len(n) - 3) ELSE n
Restriction == (ph = "read" /\ pos = 0) =>
  LET kept == KeptTimes(opt, EpochsOf(doc))
  IN  Whole = {c \in View(hdr, [NoOpts EXCEPT !.ind = TRUE], doc) :
                 /\ c[1] \in kept
                 /\ Used(opt, SubSeq(c[2], 1, 1))
                 /\ Wanted(opt, BaseName(c[3]))
                 /\ IsIndicator(c[3]) => opt.ind}
\* the kept epochs of a decimated read: spacing and coverage (C09)
Decimation == (ph = "read" /\ pos = 0 /\ opt.iv # <<>>) =>
  LET w == SelectSeq(EpochsOf(doc), LAMBDA t : InWindow(opt, t))
      k == KeptTimes(opt, EpochsOf(doc))
  IN  /\ k \subseteq Range(w)
      /\ w # <<>> => w[1] \in k
      /\ opt.iv = <<0, 0>> => k = Range(w)
      \* never two kept epochs on the same step of the grid
      /\ \A n \in 1..Len(w) : w[n] \in k =>
           Leq(PlusTimes(w[1], opt.iv, Cardinality({z \in 1..(n - 1) : w[z] \in k})), w[n])
\* export: one file with one choice of options, for replay into the real code
Emit == ph = "read" => PrintT("@@" \o ToJson([fam |-> "obs2", h |-> hdr, lines |-> doc, o |-> opt])) /\ FALSE
=============================================================================
