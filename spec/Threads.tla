-------------------------------- MODULE Threads --------------------------------
(* Calls made at the same time.  Each call begins, works in steps and ends; the *)
(* steps of several calls come in any order.  A call reads through a handle of  *)
(* its own, so what it gives is what it gives alone.                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* what call k of a content amounts to, read alone: its first Reads(k) lines
LinesOf(c) == <<<<c, 1>>, <<c, 2>>, <<c, 3>>>>
Reads(k) == 1 + (k % 3)
Alone(c, k) == SubSeq(LinesOf(c), 1, Reads(k))

Idle == [m |-> "idle", c |-> 0, k |-> 0, pos |-> 0, got |-> <<>>]
CanBegin(s) == s.m = "idle"
Begin(s, c, k) == [s EXCEPT !.m = "runs", !.c = c, !.k = k, !.pos = 0, !.got = <<>>]
CanWork(s) == s.m = "runs" /\ s.pos < Reads(s.k)
Work(s) == [s EXCEPT !.pos = @ + 1, !.got = Append(@, LinesOf(s.c)[s.pos + 1])]
CanEnd(s) == s.m = "runs" /\ s.pos = Reads(s.k)
End(s) == [s EXCEPT !.m = "ended"]
Given(s) == s.got
=============================================================================
