--------------------------------- MODULE Base ---------------------------------
(* Time, satellites, names and selection options shared by every reader.       *)
(* Times are pairs <<s, u>>: whole seconds since 2020-01-01T00:00:00 (so that  *)
(* 1980..2079 fits TLC's 32-bit integers) and microseconds 0..999999.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
CeilDiv(a, b) == (a + b - 1) \div b

------------------------------------------------------------------------------
(* Civil calendar *)
DaysFromCivil(y, m, d) ==
  LET yy  == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      mp  == (m + 9) % 12
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN  era * 146097 + doe - 719468

Seconds(y, mo, d, h, mi, s) ==
  (DaysFromCivil(y, mo, d) - 18262) * 86400 + h * 3600 + mi * 60 + s

\* RINEX 2 writes two-digit years: 80..99 are 19xx, 00..79 are 20xx
FullYear(yy) == IF yy < 80 THEN 2000 + yy ELSE 1900 + yy

Leq(a, b)  == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Plus(a, b) == LET u == a[2] + b[2]
              IN  IF u >= 1000000 THEN <<a[1] + b[1] + 1, u - 1000000>>
                  ELSE <<a[1] + b[1], u>>

------------------------------------------------------------------------------
(* Satellites are pairs <<letter, number>>; a blank letter is GPS.             *)
Letter(sv) == IF sv[1] = " " THEN "G" ELSE sv[1]
Num2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
SvName(sv) == Letter(sv) \o Num2(sv[2])

(* Text *)
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

------------------------------------------------------------------------------
(* Selection options: a record                                                 *)
(*   use  : sequence of system letters, <<>> = all                             *)
(*   tl   : <<start, stop>> or <<>>                                            *)
(*   meas : sequence of name beginnings, <<>> = all                            *)
(*   ind  : BOOLEAN, indicators wanted                                         *)
(*   iv   : interval as a time, or <<>>                                        *)
NoOpts == [use |-> <<>>, tl |-> <<>>, meas |-> <<>>, ind |-> FALSE, iv |-> <<>>]

Used(o, letter) == o.use = <<>> \/ \E i \in 1..Len(o.use) : o.use[i] = letter
InWindow(o, t)  == o.tl = <<>> \/ (Leq(o.tl[1], t) /\ Leq(t, o.tl[2]))
Wanted(o, name) == o.meas = <<>> \/ \E i \in 1..Len(o.meas) : StartsWith(name, o.meas[i])
\* options that have to be refused: a window that ends before it starts, a
\* negative interval
BadOptions(o)   == \/ o.tl # <<>> /\ Less(o.tl[2], o.tl[1])
                   \/ o.iv # <<>> /\ o.iv[1] < 0

(* Decimation: ref is <<>> before the first epoch inside the window.           *)
Due(o, ref, t)     == o.iv = <<>> \/ ref = <<>> \/ Leq(Plus(ref, o.iv), t)
NextRef(o, ref, t) == IF o.iv = <<>> THEN ref
                      ELSE IF ref = <<>> THEN t
                      ELSE IF Due(o, ref, t) THEN Plus(ref, o.iv) ELSE ref

(* The declarative law of decimation, over the increasing sequence ts of the   *)
(* epochs inside the window: which positions are kept.                         *)
RECURSIVE PlusTimes(_, _, _)
PlusTimes(t, iv, n) == IF n = 0 THEN t ELSE PlusTimes(Plus(t, iv), iv, n - 1)
RECURSIVE KeptFrom(_, _, _, _)
KeptFrom(ts, iv, i, m) ==       \* m = number kept among ts[1..i-1]
  IF i > Len(ts) THEN {}
  ELSE IF m = 0 \/ Leq(PlusTimes(ts[1], iv, m), ts[i])
       THEN {i} \cup KeptFrom(ts, iv, i + 1, m + 1)
       ELSE KeptFrom(ts, iv, i + 1, m)
KeptTimes(o, ts) == LET w == SelectSeq(ts, LAMBDA t : InWindow(o, t))
                    IN  IF o.iv = <<>> THEN {w[i] : i \in 1..Len(w)}
                        ELSE {w[i] : i \in KeptFrom(w, o.iv, 1, 0)}

(* The variables one observation c = <<value, lli, ssi>> of type nm gives:     *)
(* blanks are -1.                                                              *)
ObsCells(o, t, sv, nm, c, lli, ssi) ==
  (IF c[1] >= 0 THEN {<<t, sv, nm, c[1]>>} ELSE {})
  \cup (IF o.ind /\ lli /\ c[2] >= 0 THEN {<<t, sv, nm \o "lli", c[2]>>} ELSE {})
  \cup (IF o.ind /\ ssi /\ c[3] >= 0 THEN {<<t, sv, nm \o "ssi", c[3]>>} ELSE {})

ObsNames(o, nm, lli, ssi) ==
  {nm} \cup (IF o.ind /\ lli THEN {nm \o "lli"} ELSE {})
       \cup (IF o.ind /\ ssi THEN {nm \o "ssi"} ELSE {})
=============================================================================
