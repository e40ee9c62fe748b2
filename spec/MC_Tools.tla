-------------------------------- MODULE MC_Tools --------------------------------
(* Both ways to match a pattern agree on every pattern and name within bounds;  *)
(* the patterns are exported.                                                   *)
EXTENDS Tools, Json
CONSTANTS MaxPat, MaxName
VARIABLES p, n
Elems == {[p |-> "*"], [p |-> "?"], [p |-> "c", c |-> "a"], [p |-> "c", c |-> "b"], [p |-> "[", s |-> <<"a", ".">>, not |-> FALSE], [p |-> "[", s |-> <<"b">>, not |-> TRUE]}
Chars == {"a", "b", "."}
Init == p = <<>> /\ n = ""
Grow(e) == /\ n = "" /\ Len(p) < MaxPat /\ ~(p # <<>> /\ p[Len(p)].p = "*" /\ e.p = "*") /\ p' = Append(p, e) /\ n' = n
Name(c) == Len(n) < MaxName /\ n' = n \o c /\ p' = p
Next == (\E e \in Elems : Grow(e)) \/ (\E c \in Chars : Name(c)) \/ UNCHANGED <<p, n>>
Spec == Init /\ [][Next]_<<p, n>>
Agree == Glob(p, n) = GlobBySets(p, n)
Emit == (n = "" /\ p # <<>>) => PrintT("@@" \o ToJson(p))
=============================================================================
