--------------------------------- MODULE Orbit ---------------------------------
(* The position of a satellite from its broadcast record: the user algorithm of *)
(* the GPS and Galileo interface documents, in 24-digit arithmetic.             *)
(*                                                                              *)
(* An ephemeris el holds its elements as numbers of BigFix, wk and toe as whole *)
(* numbers. The quantities that would need a division, a root or the inverse of *)
(* a function are given as witnesses w and checked by what defines them:        *)
(*   n0 : n0 a^(3/2) = sqrt(GM)     root : root^2 = 1 - e^2, root >= 0          *)
(*   E  : E - e sin E = M           q    : q (1 - e cos E) = 1                  *)
EXTENDS BigFix, Base

\* 398600441800000 m^3/s^2 has the root 19964980.3856652962...
RootGM == <<7558, 4984, 2298, 6215, 6529, 3856, 4980, 1996, 0, 0>>
\* 0.000072921151467 rad/s
EarthRate == <<0, 0, 4670, 1151, 7292, 0, 0, 0, 0, 0>>
\* start of a week counted from 1980-01-06, by way of week 2086 (2019-12-29) to stay in range
WeekStart(w) == Seconds(2019, 12, 29, 0, 0, 0) + 604800 * (w - 2086)

Micro(u) == [i \in 1..LIMBS |-> IF i = FRAC THEN u \div 100 ELSE IF i = FRAC - 1 THEN (u % 100) * 100 ELSE 0]
\* seconds between the reference epoch of the record and t
Elapsed(el, t) == Add(Whole(t[1] - WeekStart(el.wk) - el.toe), Micro(t[2]))

Mean(el, t, w) == Add(el.M0, Mul(Add(w.n0, el.DeltaN), Elapsed(el, t)))
WitnessOf(el, t, w) ==
  LET E == Trig(w.E)
  IN  /\ Near(Mul(w.n0, Mul(Square(el.sqrtA), el.sqrtA)), RootGM, 3)
      /\ Near(Sub(w.E, Mul(el.Eccentricity, E.s)), Mean(el, t, w), 4)
      /\ ~Negative(w.root) /\ Near(Square(w.root), Sub(One, Square(el.Eccentricity)), 4)
      /\ Near(Mul(w.q, Sub(One, Mul(el.Eccentricity, E.c))), One, 4)

Position(el, t, w) ==
  LET e     == el.Eccentricity
      tk    == Elapsed(el, t)
      E     == Trig(w.E)
      nu    == [s |-> Mul(Mul(w.root, E.s), w.q), c |-> Mul(Sub(E.c, e), w.q)]
      phi   == Sum(nu, Trig(el.omega))
      two   == Double(phi)
      corr(c, s) == Add(Mul(c, two.c), Mul(s, two.s))
      u     == Sum(phi, Trig(corr(el.Cuc, el.Cus)))
      r     == Add(Mul(Square(el.sqrtA), Sub(One, Mul(e, E.c))), corr(el.Crc, el.Crs))
      inc   == Trig(Add(Add(el.Io, Mul(el.IDOT, tk)), corr(el.Cic, el.Cis)))
      node  == Trig(Add(el.Omega0, Sub(Mul(Sub(el.OmegaDot, EarthRate), tk), Mul(EarthRate, Whole(el.toe)))))
      x     == Mul(r, u.c)
      y     == Mul(r, u.s)
      ys    == Mul(y, inc.c)
  IN  <<Sub(Mul(x, node.c), Mul(ys, node.s)), Add(Mul(x, node.s), Mul(ys, node.c)), Mul(y, inc.s)>>

------------------------------------------------------------------------------
(* Orbits whose angles are all quarter turns, of eccentricity nought or 3/5:    *)
(* positions by counting. lat = [e5 (0 or 3), E, w, o, i, uc, rc, ic]: quarter  *)
(* turns, uc, ic quarter turns and rc millionths of the semi-major axis of      *)
(* harmonic correction (circular orbits only).                                  *)
Cq(n) == <<1, 0, -1, 0>>[(n % 4) + 1]
Sq(n) == <<0, 1, 0, -1>>[(n % 4) + 1]
\* in five-millionths of the semi-major axis
LatticePoint(g) ==
  LET c2 == Cq(2 * (g.E + g.w))
      k  == (IF g.e5 = 0 THEN 5 ELSE 1) * (1000000 + g.rc * c2)
      px == IF g.e5 = 0 THEN k * Cq(g.E) ELSE k * (5 * Cq(g.E) - 3)
      py == IF g.e5 = 0 THEN k * Sq(g.E) ELSE k * 4 * Sq(g.E)
      w  == g.w + g.uc * c2
      i  == g.i + g.ic * c2
      x  == px * Cq(w) - py * Sq(w)
      y  == px * Sq(w) + py * Cq(w)
  IN  <<x * Cq(g.o) - y * Sq(g.o) * Cq(i), x * Sq(g.o) + y * Cq(g.o) * Cq(i), y * Sq(i)>>
Lattices == {g \in [e5 : {0, 3}, E : 0..3, w : 0..3, o : 0..3, i : 0..3, uc : 0..3, rc : {0, 7}, ic : 0..3] :
               /\ g.e5 = 3 => g.uc = 0 /\ g.rc = 0 /\ g.ic = 0
               /\ Cardinality({x \in {<<"u", g.uc>>, <<"r", g.rc>>, <<"i", g.ic>>} : x[2] # 0}) <= 1}
\* the elements of such an orbit of semi-major axis 25000 km at the start of week 2100
Axis == 25000000
Quarter(n) == Times(HalfPi, n)
\* on circular orbits the sine terms vanish at quarter turns, whatever they are
SineTerm(g) == IF g.e5 = 0 THEN One ELSE Zero
Elements(g) ==
  LET e == Div(Whole(g.e5), 5)
  IN  [sqrtA |-> Whole(5000), Eccentricity |-> e, M0 |-> Sub(Quarter(g.E), Times(e, Sq(g.E))), DeltaN |-> Zero,
       omega |-> Quarter(g.w), Omega0 |-> Quarter(g.o), OmegaDot |-> Zero, Io |-> Quarter(g.i), IDOT |-> Zero,
       Cuc |-> Quarter(g.uc), Cus |-> SineTerm(g), Crc |-> Whole((Axis \div 1000000) * g.rc), Crs |-> Times(SineTerm(g), 100), Cic |-> Quarter(g.ic), Cis |-> SineTerm(g),
       wk |-> 2100, toe |-> 0]
Witnesses(g) ==
  [n0 |-> Mul(RootGM, [i \in 1..LIMBS |-> IF i = 4 THEN 8 ELSE 0]),
   root |-> IF g.e5 = 0 THEN One ELSE Div(Whole(4), 5), E |-> Quarter(g.E),
   q |-> IF g.e5 = 0 THEN One ELSE CASE Cq(g.E) = 1 -> Div(Whole(5), 2) [] Cq(g.E) = -1 -> Div(Whole(5), 8) [] OTHER -> One]
\* the point in metres
LatticeMetres(g) == LET p == LatticePoint(g) IN [k \in 1..3 |-> Times(Div(Whole(p[k]), 5), Axis \div 1000000)]
=============================================================================
