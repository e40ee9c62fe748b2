-------------------------------- MODULE BigFix ---------------------------------
(* Numbers with 24 decimal places, as sequences of limbs of four digits, least  *)
(* significant first: six limbs after the point and four before it. Only the    *)
(* last limb may be negative. Products are cut (towards minus infinity) at the  *)
(* 24th place.                                                                  *)
EXTENDS Integers, Sequences, SequencesExt
FRAC == 6
LIMBS == 10
BASE == 10000
Idx == [i \in 1..LIMBS |-> i]

\* carries; the most significant limb takes what is left
Norm(s) ==
  LET r == FoldLeft(LAMBDA a, x : [c |-> (a.c + x) \div BASE, o |-> Append(a.o, (a.c + x) % BASE)],
                    [c |-> 0, o |-> <<>>], s)
  IN  [r.o EXCEPT ![Len(r.o)] = @ + BASE * r.c]

Whole(n) == Norm([i \in 1..LIMBS |-> IF i = FRAC + 1 THEN n ELSE 0])
Zero == [i \in 1..LIMBS |-> 0]
One == Whole(1)
Add(a, b) == Norm([i \in 1..LIMBS |-> a[i] + b[i]])
Sub(a, b) == Norm([i \in 1..LIMBS |-> a[i] - b[i]])
Neg(a) == Norm([i \in 1..LIMBS |-> -a[i]])
Times(a, n) == Norm([i \in 1..LIMBS |-> a[i] * n])          \* |n| < 200000
Negative(a) == a[LIMBS] < 0
Abs(a) == IF Negative(a) THEN Neg(a) ELSE a
Leq(a, b) == ~Negative(Sub(b, a))

\* limb k of the full product (before carries)
Conv(a, b, k) ==
  FoldLeft(LAMBDA s, i : IF k + 1 - i \in 1..LIMBS THEN s + a[i] * b[k + 1 - i] ELSE s, 0, Idx)
Full == [k \in 1..(2 * LIMBS - 1) |-> k]
Mul(a, b) ==
  LET w == Norm([k \in 1..(2 * LIMBS - 1) |-> Conv(a, b, k)])
      top == FoldLeft(LAMBDA t, j : t * BASE + w[2 * LIMBS - j], 0, [j \in 1..(LIMBS - FRAC) |-> j])
  IN  [i \in 1..LIMBS |-> IF i = LIMBS THEN top ELSE w[FRAC + i]]
Square(a) == Mul(a, a)

\* a / n, n whole, 0 < n < 200000
Div(a, n) ==
  LET r == FoldLeft(LAMBDA s, i : LET v == s.r * BASE + a[LIMBS + 1 - i]
                                  IN  [r |-> v % n, o |-> <<v \div n>> \o s.o],
                    [r |-> 0, o |-> <<>>], Idx)
  IN  r.o

\* |a - b| <= 10^-(4 k)
Near(a, b, k) == Leq(Abs(Sub(a, b)), [i \in 1..LIMBS |-> IF i = FRAC + 1 - k THEN 1 ELSE 0])

------------------------------------------------------------------------------
(* Circular functions *)
TwoPi == <<5286, 7692, 5864, 7179, 8530, 2831, 6, 0, 0, 0>>
HalfPi == Div(TwoPi, 4)

\* x less a whole number of turns, |x| below ten thousand
Turn(x) ==
  LET y == Abs(x)
      z == Sub(y, Times(TwoPi, (y[FRAC + 1] * 100) \div 628))
  IN  IF Negative(x) THEN Neg(z) ELSE z

\* Taylor series of a small angle: [s |-> sin y, c |-> cos y]
Small(y) ==
  LET q == Square(y)
      cosq == FoldLeft(LAMBDA acc, k : Sub(One, Div(Mul(q, acc), (2 * k - 1) * (2 * k))), One, [i \in 1..13 |-> 14 - i])
      sinq == FoldLeft(LAMBDA acc, k : Sub(One, Div(Mul(q, acc), (2 * k) * (2 * k + 1))), One, [i \in 1..13 |-> 14 - i])
  IN  [s |-> Mul(y, sinq), c |-> cosq]
Double(p) == [s |-> Times(Mul(p.s, p.c), 2), c |-> Sub(Square(p.c), Square(p.s))]
Sum(p, q) == [s |-> Add(Mul(p.s, q.c), Mul(p.c, q.s)), c |-> Sub(Mul(p.c, q.c), Mul(p.s, q.s))]
\* sine and cosine of any angle
Trig(x) == Double(Double(Double(Small(Div(Turn(x), 8)))))
=============================================================================
