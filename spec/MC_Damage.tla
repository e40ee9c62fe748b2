------------------------------ MODULE MC_Damage -------------------------------
(* Damage of small files of all formats: fields become unreadable (-2), epoch   *)
(* and record lines become unreadable (dmg).  What the specified readers give   *)
(* is what they give of the sound file without exactly what was damaged.        *)
EXTENDS Base, Json
CONSTANTS Fams, MaxDamage
O2 == INSTANCE Obs2 WITH PerLine <- 5, SatsPerLine <- 12
O3 == INSTANCE Obs3
N2 == INSTANCE Nav2
N3 == INSTANCE Nav3
S3 == INSTANCE Sp3
VARIABLES fam, lines, left
vars == <<fam, lines, left>>

D(n) == [y |-> 2020, mo |-> 1, d |-> n, h |-> 0, mi |-> 0, s |-> 0, f |-> 0]
Ep(k, n) == [k |-> k] @@ D(n)
V(n, i) == 100 + 40 * n + i
Cell(v) == <<v, v % 10, (v + 3) % 10>>
Hdr == [obs2 |-> [sys |-> "M", types |-> <<"L1", "C1", "L2", "S1", "P2", "D1">>],
         obs3 |-> [sys |-> "M", codes |-> << [s |-> "G", c |-> <<"L1C", "C1C">>], [s |-> "R", c |-> <<"C1C">>] >>],
         nav2 |-> [sys |-> "R"], nav3 |-> [sys |-> "M"],
         sp3 |-> [svs |-> << <<"G", 1, "0">>, <<"R", 2, "0">> >>, ver |-> "c", pv |-> "V"]]
Obs2Doc == FlattenSeq([n \in 1..2 |->
  << Ep("E", n) @@ [fl |-> 0, n |-> 2, svs |-> << <<"G", 1>>, <<"R", 2>> >>] >>
  \o FlattenSeq([q \in 1..2 |-> << [k |-> "D", c |-> [z \in 1..5 |-> Cell(V(n, 10 * q + z))]], [k |-> "D", c |-> << Cell(V(n, 10 * q + 6)) >>] >>])])
Obs3Doc == FlattenSeq([n \in 1..2 |->
  << Ep("E", n) @@ [fl |-> 0, n |-> 2], [k |-> "S", sv |-> <<"R", 2>>, c |-> << Cell(V(n, 1)) >>], [k |-> "S", sv |-> <<"G", 1>>, c |-> << Cell(V(n, 2)), Cell(V(n, 3)) >>] >>])
Rec(e, v) == << e @@ [c |-> SubSeq(v, 1, 3)] >> \o [q \in 1..3 |-> [k |-> "D", c |-> SubSeq(v, 4 * q, 4 * q + 3)]]
Nav2Doc == FlattenSeq([n \in 1..2 |-> Rec(Ep("E", n) @@ [prn |-> 1], [i \in 1..15 |-> V(n, i)]) \o Rec(Ep("E", n) @@ [prn |-> 2], [i \in 1..15 |-> V(n, 15 + i)])])
Nav3Doc == FlattenSeq([n \in 1..2 |-> Rec(Ep("E", n) @@ [sv |-> <<"R", 1>>], [i \in 1..15 |-> V(n, i)]) \o Rec(Ep("E", n) @@ [sv |-> <<"S", 22>>], [i \in 1..15 |-> V(n, 15 + i)])])
Sp3Doc == FlattenSeq([n \in 1..2 |-> << Ep("T", n) >> \o FlattenSeq([q \in 1..2 |->
  << [k |-> "P", sv |-> Hdr.sp3.svs[q], c |-> [z \in 1..4 |-> V(n, 10 * q + z)]], [k |-> "V", sv |-> Hdr.sp3.svs[q], c |-> [z \in 1..4 |-> V(n, 10 * q + 4 + z)]] >>])])
Two(ls) == [i \in 1..Len(ls) |-> IF ls[i].k = "E" THEN [ls[i] EXCEPT !.y = 20] ELSE ls[i]]
Doc == [obs2 |-> Two(Obs2Doc), obs3 |-> Obs3Doc, nav2 |-> Two(Nav2Doc), nav3 |-> Nav3Doc, sp3 |-> Sp3Doc]
O == [NoOpts EXCEPT !.ind = TRUE]

Unreadable(ln) == "dmg" \in DOMAIN ln
Seen(ls) == [i \in 1..Len(ls) |-> IF Unreadable(ls[i]) THEN [k |-> "X"] ELSE ls[i]]
Cells(f, ls) == CASE f = "obs2" -> O2!Cells(O2!Read(Hdr.obs2, O, Seen(ls)))
                  [] f = "obs3" -> O3!Cells(O3!Read(Hdr.obs3, O, Seen(ls)))
                  [] f = "nav2" -> N2!Cells(Hdr.nav2, N2!Read(Hdr.nav2, O, Seen(ls)))
                  [] f = "nav3" -> N3!CellsOf(N3!AllRecs(N3!Read(Hdr.nav3, O, Seen(ls))))
                  [] f = "sp3"  -> S3!Cells(S3!Read(Seen(ls)))

Init == fam \in Fams /\ lines = Doc[fam] /\ left = MaxDamage
Obs == fam \in {"obs2", "obs3"}
HurtField == \E i \in 1..Len(lines) : "c" \in DOMAIN lines[i] /\ \E j \in 1..Len(lines[i].c) :
               IF Obs THEN \E z \in 1..3 : lines' = [lines EXCEPT ![i].c[j][z] = -2]
               ELSE lines' = [lines EXCEPT ![i].c[j] = -2]
HurtLine == \E i \in 1..Len(lines) : lines[i].k \in {"E", "T"} /\ lines' = [lines EXCEPT ![i] = @ @@ [dmg |-> TRUE]]
Next == left > 0 /\ (HurtField \/ HurtLine) /\ left' = left - 1 /\ UNCHANGED fam
Done == left = 0 /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Done]_vars

\* where the value at place z of cell j of line i stands: its time, satellite and name
TimeOf(ln) == <<Seconds(2020, ln.mo, ln.d, ln.h, ln.mi, ln.s), 0>>
Sound == Doc[fam]
HeadAt(i) == SetMax({z \in 1..i : Sound[z].k \in {"E", "T"}})
Suffix == <<"", "lli", "ssi">>
Place(i, j, z) ==
  LET e == HeadAt(i)
      ln == Sound[i]
      q == IF i = e THEN j ELSE 3 + 4 * (i - e - 1) + j
      name == CASE fam = "obs2" -> Hdr.obs2.types[((i - e - 1) % 2) * 5 + j] \o Suffix[z]
                [] fam = "obs3" -> Hdr.obs3.codes[IF ln.sv[1] = "G" THEN 1 ELSE 2].c[j] \o Suffix[z]
                [] fam = "nav2" -> N2!Fields2("R")[q]
                [] fam = "nav3" -> N3!Fields3(Sound[e].sv[1], 15)[q]
                [] fam = "sp3"  -> (IF ln.k = "P" THEN S3!PNames ELSE S3!VNames)[j]
      sv == CASE fam = "obs2" -> SvName(Sound[e].svs[(i - e - 1) \div 2 + 1])
              [] fam = "nav2" -> SvName(<<"R", Sound[e].prn>>)
              [] fam = "nav3" -> SvName(Sound[e].sv)
              [] OTHER -> SvName(ln.sv)
  IN  <<TimeOf(Sound[e]), sv, name>>
Places == {<<i, j, z>> : i \in {y \in 1..Len(Sound) : "c" \in DOMAIN Sound[y]}, j \in 1..5, z \in 1..3}
Damaged == {p \in Places : /\ p[2] <= Len(Sound[p[1]].c) /\ (Obs \/ p[3] = 1)
                           /\ \/ Unreadable(lines[HeadAt(p[1])])
                              \/ (IF Obs THEN lines[p[1]].c[p[2]][p[3]] ELSE lines[p[1]].c[p[2]]) = -2}
Lost == {Place(p[1], p[2], p[3]) : p \in Damaged}
Confined == Cells(fam, lines) = {c \in Cells(fam, Sound) : <<c[1], c[2], c[3]>> \notin Lost}
Emit == left = 0 => PrintT("@@" \o ToJson([fam |-> fam, h |-> Hdr[fam], lines |-> lines, broken |-> TRUE, o |-> NoOpts]))
=============================================================================
