-------------------------------- MODULE Session --------------------------------
(* Sequences of calls.  What a call returns is a function of the content it is  *)
(* given and of its options: nothing else in the world has a say, and a call    *)
(* changes nothing but a stream's position.                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANT Ref(_, _)          \* Ref(content, call): result of that call alone on a fresh copy

\* disk: file -> content; pool: streams, each [c |-> content, pos |-> position];
\* held: what earlier calls returned, as it looks now
Write(disk, f, c) == [disk EXCEPT ![f] = c]
\* every call starts reading at the beginning, wherever the stream is
Returned(c, k) == Ref(c, k)
\* the caller may do what he likes with a result he holds: no later result changes
Scribbled(held, i, x) == [held EXCEPT ![i] = x]
=============================================================================
