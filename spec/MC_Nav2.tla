-------------------------------- MODULE MC_Nav2 --------------------------------
(* Bounded model of RINEX 2 navigation files.                                  *)
EXTENDS Nav2, Json
CONSTANTS Sys, MaxRecs, Prns, Times, Windows, Lasts, Extras
VARIABLES ph, doc, opt, rd, pos, nr
vars == <<ph, doc, opt, rd, pos, nr>>

\* times in hours, tenths of seconds
TimesA == {<<0, 0>>, <<2, 0>>, <<2, 5>>, <<25, 0>>}
TimesB == {<<0, 0>>, <<2, 5>>, <<25, 0>>}
PrnsA == {1, 12}
WinA == {<<>>, <<0, 0>>, <<0, 2>>, <<2, 25>>, <<3, 4>>, <<30, 40>>}
Win0 == {<<>>}
LastsA == {"full", "omit", "blank"}
Lasts1 == {"full"}

T0 == Seconds(1999, 12, 31, 23, 30, 0)
At(hr) == <<T0 + 3600 * hr, 0>>
TimeFields(t) ==
  LET hr == t[1] + 23
      d  == hr \div 24
  IN  [y |-> IF d = 0 THEN 99 ELSE 0, mo |-> IF d = 0 THEN 12 ELSE 1, d |-> IF d = 0 THEN 31 ELSE d,
       h |-> hr % 24, mi |-> 30, s |-> 0, f |-> t[2] * 1000000]
hdr == [sys |-> Sys]
NV == Len(Fields2(Sys))
Sizes == IF Sys = "E" THEN <<3, 4, 4, 4, 4, 3, 4, 1>>
         ELSE IF Sys = "G" THEN <<3, 4, 4, 4, 4, 4, 4, 2>> ELSE <<3, 4, 4, 4>>
ValueOf(n, k) == IF (n + k) % 7 = 0 THEN 0 ELSE 100 + 40 * n + k
RecordLines(n, prn, t, last) ==
  LET v == [k \in 1..NV |-> IF k = NV /\ last = "blank" THEN -1 ELSE ValueOf(n, k)]
      e == IF last = "omit" THEN NV - 1 ELSE NV
      RECURSIVE Off(_)
      Off(q) == IF q = 1 THEN 0 ELSE Off(q - 1) + Sizes[q - 1]
      Part(q) == SubSeq(v, Off(q) + 1, Min2(e, Off(q) + Sizes[q]))
      a == TimeFields(t)
  IN  <<[k |-> "E", prn |-> prn, y |-> a.y, mo |-> a.mo, d |-> a.d, h |-> a.h, mi |-> a.mi, s |-> a.s,
         f |-> a.f, c |-> Part(1)]>> \o [q \in 1..(Len(Sizes) - 1) |-> [k |-> "D", c |-> Part(q + 1)]]

Init == ph = "write" /\ doc = <<>> /\ opt = NoOpts /\ rd = Start /\ pos = 0 /\ nr = 0
WriteRecord ==
  /\ ph = "write" /\ nr < MaxRecs
  /\ \E p \in Prns, t \in Times, l \in Lasts : doc' = doc \o RecordLines(nr, p, t, l)
  /\ nr' = nr + 1 /\ UNCHANGED <<ph, opt, rd, pos>>
WriteForeign ==
  /\ ph = "write" /\ Extras /\ nr = 1 /\ doc[Len(doc)].k # "J"
  /\ doc' = Append(doc, [k |-> "J"])
  /\ UNCHANGED <<ph, opt, rd, pos, nr>>
Open ==
  /\ ph = "write" /\ nr > 0 /\ ph' = "read"
  /\ \E w \in Windows : opt' = [NoOpts EXCEPT !.tl = IF w = <<>> THEN <<>> ELSE <<At(w[1]), At(w[2])>>]
  /\ UNCHANGED <<doc, rd, pos, nr>>
More2 == ph = "read" /\ pos < Len(doc)
Advance(s) == rd' = s /\ pos' = pos + 1 /\ UNCHANGED <<ph, doc, opt, nr>>
DoReadFirst == More2 /\ CanReadFirst(rd, doc[pos + 1]) /\ Advance(ReadFirst(hdr, opt, rd, doc[pos + 1]))
DoReadMore  == More2 /\ CanReadMore(rd, doc[pos + 1]) /\ Advance(ReadMore(hdr, opt, rd, doc[pos + 1]))
DoSkip      == More2 /\ CanSkip(rd, doc[pos + 1]) /\ Advance(Skip(rd))
Done == ph = "read" /\ pos = Len(doc) /\ UNCHANGED vars
Next == WriteRecord \/ WriteForeign \/ Open \/ DoReadFirst \/ DoReadMore \/ DoSkip \/ Done
Spec == Init /\ [][Next]_vars

AtEnd == ph = "read" /\ pos = Len(doc)
Whole == View(hdr, opt, doc)
Exact == AtEnd => /\ Cells(hdr, rd) = Whole /\ CompleteCells(hdr, rd) = Whole
                  /\ rd.eps = {EpochTime(doc[i]) : i \in RecAt(doc)}
\* cut off anywhere: only what is written in the file, complete records as in the full file
Written == UNION {RecCells(hdr, r) : r \in Range(RecSeq(hdr, opt, doc))}
NeverWrong == ph = "read" =>
  /\ Cells(hdr, rd) \subseteq Written
  /\ {c \in Whole : \E r \in Range(rd.recs) : r.sv = c[2] /\ r.t = c[1]} \subseteq CompleteCells(hdr, rd)
\* a window gives exactly what the full read has inside it, for satellites that repeat no epoch
Restriction == (ph = "read" /\ pos = 0) =>
  LET rep == {sv \in {r.sv : r \in Range(RecSeq(hdr, NoOpts, doc))} : Repeats(RecSeq(hdr, NoOpts, doc), sv)}
  IN  {c \in Whole : c[2] \notin rep} = {c \in View(hdr, NoOpts, doc) : InWindow(opt, c[1])}
\* the known deviation differs only by losing data, and only with a window
Deviation == (ph = "read" /\ pos = 0) =>
  LET st == ReadStop(hdr, opt, doc)
  IN  /\ opt.tl = <<>> => st = Read(hdr, opt, doc)
      /\ Range(st.recs) \subseteq Range(Read(hdr, opt, doc).recs)
Emit == ph = "read" => PrintT("@@" \o ToJson([fam |-> "nav2", h |-> hdr, lines |-> doc, o |-> opt])) /\ FALSE
=============================================================================
