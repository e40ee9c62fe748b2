------------------------------- MODULE Container -------------------------------
(* How a file's bytes become the lines a reader sees.  A file is a stack of     *)
(* packings around a text; only the outermost packing and, inside it, a         *)
(* Hatanaka (Compact RINEX) packing are known to the library.                   *)
EXTENDS Integers, Sequences, SequencesExt

\* outer packings; zips has further files after the first, zipd starts with a
\* directory entry, gzm and bzm consist of two members, gzn names the original
\* and stores it, bz1 has the smallest blocks, zipn stores, zipb holds bzip2 data
Outer == {"none", "gz", "gzm", "gzn", "bz2", "bzm", "bz1", "Z", "zip", "zips", "zipd", "zipn", "zipb"}
Magic(o) == CASE o \in {"gz", "gzm", "gzn"} -> "gz" [] o \in {"bz2", "bzm", "bz1"} -> "bz2" [] o = "Z" -> "Z"
              [] o \in {"zip", "zips", "zipd", "zipn", "zipb"} -> "zip" [] OTHER -> "text"

\* a packed file: outer packing, Hatanaka inside, line ends, characters outside ASCII
\* in comments, how the name ends
Packed == [outer: Outer, crx: BOOLEAN, nl: {"lf", "crlf"}, chars: BOOLEAN,
           suffix: {"told", "upper", "untold", "plain"}]

\* The bytes: what unpacking needs to undo, outermost first
Bytes(text, p) ==
  LET a == <<[pack |-> "text", lines |-> text, nl |-> p.nl, chars |-> p.chars]>>
      b == IF p.crx THEN <<[pack |-> "crx"]>> \o a ELSE a
  IN  IF p.outer = "none" THEN b
      ELSE <<[pack |-> Magic(p.outer),
              first |-> CASE p.outer = "zipd" -> "directory" [] OTHER -> "file",
              members |-> IF p.outer \in {"gzm", "bzm"} THEN 2 ELSE 1,
              others |-> IF p.outer = "zips" THEN 2 ELSE 0]>> \o b

\* Opening.  The outermost packing is found from the first bytes (the name may
\* say the same, or nothing).  header: only the header is wanted, which Compact
\* RINEX holds as plain text.
Unwrap(bytes) == IF Head(bytes).pack \in {"gz", "bz2", "Z", "zip"} THEN Tail(bytes) ELSE bytes
Opened(bytes, header) ==
  LET b == Unwrap(bytes)
  IN  IF Head(b).pack = "crx" THEN (IF header THEN b ELSE Tail(b)) ELSE b
LinesOf(b) == Last(b).lines           \* line ends and foreign characters do not matter

\* What a reader of p gets, against the plain text
SameText(text, p) == LinesOf(Opened(Bytes(text, p), FALSE)) = text
                     /\ Head(Opened(Bytes(text, p), FALSE)).pack = "text"
SameHeader(text, p) == LinesOf(Opened(Bytes(text, p), TRUE)) = text

\* File information is that of the text; of a Hatanaka file it is that of the
\* packing: Compact RINEX 1.0 for RINEX 2 and 3.0 for RINEX 3
InfoVersion(p, version, major) == IF ~p.crx THEN version ELSE IF major = 2 THEN "1.0" ELSE "3.0"
=============================================================================
