------------------------------ MODULE MC_Container ------------------------------
(* All ways to pack one text, opened step by step.                              *)
EXTENDS Container, TLC, Json
VARIABLES p, bytes, stage
Text == <<"header", "data">>
Init == /\ p \in {q \in Packed : (q.crx => ~q.chars)}
        /\ bytes = Bytes(Text, p) /\ stage = "closed"
Outermost == /\ stage = "closed" /\ stage' = "outer" /\ bytes' = Unwrap(bytes) /\ UNCHANGED p
Hatanaka  == /\ stage = "outer" /\ stage' = "open" /\ UNCHANGED p
             /\ bytes' = IF Head(bytes).pack = "crx" THEN Tail(bytes) ELSE bytes
Next == Outermost \/ Hatanaka \/ (stage = "open" /\ UNCHANGED <<p, bytes, stage>>)
Spec == Init /\ [][Next]_<<p, bytes, stage>>

Exact == stage = "open" => bytes = Opened(Bytes(Text, p), FALSE) /\ LinesOf(bytes) = Text /\ Len(bytes) = 1
Same == SameText(Text, p) /\ SameHeader(Text, p)
Emit == stage = "open" => PrintT("@@" \o ToJson(p))
=============================================================================
