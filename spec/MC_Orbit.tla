-------------------------------- MODULE MC_Orbit --------------------------------
(* The orbit algorithm agrees with counting on every quarter-turn orbit; sines   *)
(* and cosines obey their laws; the orbits are exported.                         *)
EXTENDS Orbit, Json
CONSTANTS Every, MaxAngle
ASSUME Near(Square(RootGM), [i \in 1..LIMBS |-> <<0, 0, 0, 0, 0, 0, 0, 4180, 6004, 398>>[i]], 3)
ASSUME WeekStart(0) = Seconds(1980, 1, 6, 0, 0, 0)

VARIABLES g, a, b
Start == [e5 |-> 0, E |-> 0, w |-> 0, o |-> 0, i |-> 0, uc |-> 0, rc |-> 0, ic |-> 0]
Picked == {x \in Lattices : (x.E + 3 * x.w + 5 * x.o + 7 * x.i + x.uc + x.ic + x.rc) % Every = 0}
Init == g = Start /\ a = 0 /\ b = 0
\* first two of the turns, then the rest
Pick ==
  /\ b = 0 /\ UNCHANGED b
  /\ \/ g = Start /\ a = 0 /\ a' = -1 /\ \E x, y \in 0..3 : g' = [Start EXCEPT !.w = x, !.o = y]
     \/ a = -1 /\ a' = -2 /\ g' \in {x \in Picked : x.w = g.w /\ x.o = g.o}
Turns == g = Start /\ a >= 0 /\ a < MaxAngle /\ b < MaxAngle /\ ((a' = a + 1 /\ b' = b) \/ (b' = b + 1 /\ a' = a)) /\ g' = g
Next == Pick \/ Turns \/ UNCHANGED <<g, a, b>>
Spec == Init /\ [][Next]_<<g, a, b>>

T0 == <<WeekStart(2100), 0>>
Agree == a = -2 =>
  LET p == Position(Elements(g), T0, Witnesses(g))
      q == LatticeMetres(g)
  IN  WitnessOf(Elements(g), T0, Witnesses(g)) /\ \A k \in 1..3 : Near(p[k], q[k], 3)
\* angles in sevenths and elevenths
Laws == a >= 0 =>
  LET x == Div(Whole(5 * a), 7)
      y == Neg(Div(Whole(3 * b), 11))
      p == Trig(x)
      q == Trig(y)
      s == Trig(Add(x, y))
      t == Sum(p, q)
      d == Trig(Times(x, 2))
      e == Double(p)
  IN  /\ Near(Add(Square(p.s), Square(p.c)), One, 5)
      /\ Near(s.s, t.s, 5) /\ Near(s.c, t.c, 5) /\ Near(d.s, e.s, 5) /\ Near(d.c, e.c, 5)
      /\ Near(Trig(Neg(x)).s, Neg(p.s), 5)
      /\ Near(Times(Div(x, 7), 7), x, 5) /\ Near(Mul(x, y), Div(Whole(-15 * a * b), 77), 5)
Emit == (a = -2) => PrintT("@@" \o ToJson([g |-> g, p |-> LatticePoint(g)]))
=============================================================================
