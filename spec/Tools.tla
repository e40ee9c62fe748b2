--------------------------------- MODULE Tools ---------------------------------
(* File finding by patterns and the table of receiver locations.                *)
EXTENDS Header

\* Does a name match a pattern?  A pattern is a sequence of elements:
\*   [p |-> "*"] any characters, [p |-> "?"] one character,
\*   [p |-> "[", s |-> {...}, not |-> BOOLEAN] one of a set, [p |-> "c", c |-> "x"] itself
One1(e, ch) == CASE e.p = "?" -> TRUE
                 [] e.p = "[" -> (ch \in ToSet(e.s)) # e.not
                 [] e.p = "c" -> ch = e.c
                 [] OTHER -> FALSE
RECURSIVE Glob(_, _)
Glob(p, n) ==
  IF p = <<>> THEN n = ""
  ELSE IF p[1].p = "*" THEN Glob(Tail(p), n) \/ (n # "" /\ Glob(p, SubSeq(n, 2, Len(n))))
  ELSE n # "" /\ One1(p[1], SubSeq(n, 1, 1)) /\ Glob(Tail(p), SubSeq(n, 2, Len(n)))

\* the same, as the positions of the pattern that can be reached after reading
\* the name character by character
Skip1(p, S) == {j \in 1..(Len(p) + 1) : \E i \in S : i <= j /\ \A m \in i..(j - 1) : p[m].p = "*"}
RECURSIVE Reach(_, _, _)
Reach(p, S, n) ==
  LET T == Skip1(p, S)
  IN  IF n = "" THEN T
      ELSE LET ch == SubSeq(n, 1, 1)
           IN  Reach(p, {i \in T : i <= Len(p) /\ p[i].p = "*"} \cup {i + 1 : i \in {j \in T : j <= Len(p) /\ p[j].p # "*" /\ One1(p[j], ch)}},
                     SubSeq(n, 2, Len(n)))
GlobBySets(p, n) == (Len(p) + 1) \in Reach(p, {1}, n)

\* files: sequence of [name, dir]
Found(files, pats) == {files[i].name : i \in {j \in 1..Len(files) : ~files[j].dir /\ \E k \in 1..Len(pats) : Glob(pats[k], files[j].name)}}

\* Location table: the rows of the files that state a position.  What a file
\* states: "yes", "no", or "open" (damaged: its header may or may not be readable)
Count(S, x) == Len(SelectSeq(S, LAMBDA y : y = x))
=============================================================================
