-------------------------------- MODULE MC_First --------------------------------
(* Every first line of the decision table, exported; classification is total    *)
(* and does not depend on up to eight blank lines before it.                            *)
EXTENDS Header, Json
VARIABLES f
Versions == [a |-> 2, b |-> 3, c |-> 4, d |-> 0, e |-> 1, g |-> -1, h |-> 5, i |-> 20, j |-> 30]
Types == {"O", "N", "G", "E", "H", "J", "M", "C", "L", "B", "S", "o", " ", "X"}
Systems == {"G", "R", "E", "C", "J", "I", "S", "M", " ", "X", "g"}
Init == f \in [lead : {0}, form : {"rinex"}, major : {Versions[x] : x \in DOMAIN Versions}, ty : Types, sy : Systems, label : {"ok", "bad", "short"}]
              \cup [lead : 1..13, form : {"rinex"}, major : {2, 3}, ty : {"O", "N", "G", "M"}, sy : {"G", "M", " "}, label : {"ok", "bad"}]
              \cup [lead : {0, 1, 3, 8, 9, 10, 20}, form : {"sp3"}, major : 0..4, ty : {""}, sy : {""}, label : {"ok"}]
              \cup [lead : {0, 2}, form : {"other"}, major : 0..11, ty : {""}, sy : {""}, label : {"ok"}]
Next == UNCHANGED f
Spec == Init /\ [][Next]_f
Total == /\ Classify(f).k \in Kinds \cup {"refuse", "other", "open", "nonav"}
         /\ Classify(f) = IF f.lead <= 8 THEN Classify([f EXCEPT !.lead = 0]) ELSE [k |-> "refuse", s |-> ""]
         /\ (Classify(f).k \in {"obs", "nav"} => f.major \in {2, 3})
Emit == PrintT("@@" \o ToJson(f))
=============================================================================
