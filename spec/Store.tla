--------------------------------- MODULE Store ---------------------------------
(* Converted output.  A store maps file names to files: what is in a file is    *)
(* "nc" with groups (OBS, NAV, or the nameless group of SP3 data, each holding  *)
(* one dataset; a caller may name another group), or "junk" (no NetCDF file).   *)
(* A conversion either adds one group or is refused and changes nothing.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* a source read with options: what = "obs", "nav", "sp3" or "fail"; data = the dataset
\* (gr = the group asked for, "" for the one of its kind)
Group(what, gr) == IF gr # "" /\ what \in {"obs", "nav"} THEN gr ELSE CASE what = "obs" -> "OBS" [] what = "nav" -> "NAV" [] OTHER -> "/"

Nc(groups) == [kind |-> "nc", g |-> groups]
Junk == [kind |-> "junk", g |-> [x \in {} |-> ""]]
One(g, d) == [x \in {g} |-> d]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

\* where output goes: a directory (the file in it is named after the source), a
\* name ending in .nc in an existing directory, the same in no directory, or
\* something else
Target(out, name) == CASE out.t = "dir" -> out.name \o "/" \o name \o ".nc"
                       [] out.t = "file" -> out.name [] OTHER -> ""
\* a target that cannot be written: no output wanted from a name that is neither
BadOut(out) == out.t \in {"other", "orphan"}

\* May the dataset of group g be written to name f?
Accepts(store, f, g, ow) ==
  \/ f \notin DOMAIN store
  \/ ow
  \/ store[f].kind = "nc" /\ g # "/" /\ g \notin DOMAIN store[f].g
After(store, f, g, d, ow) ==
  Put(store, f, IF ow \/ f \notin DOMAIN store THEN Nc(One(g, d)) ELSE Nc(Put(store[f].g, g, d)))

\* loading with output: [ok, store]
Load(store, name, r, gr, out, ow) ==
  LET f == Target(out, name)
      g == Group(r.what, gr)
  IN  IF r.what = "fail" \/ BadOut(out) THEN [ok |-> FALSE, store |-> store]
      ELSE IF out.t = "none" THEN [ok |-> TRUE, store |-> store]
      ELSE IF Accepts(store, f, g, ow) THEN [ok |-> TRUE, store |-> After(store, f, g, r.data, ow)]
      ELSE [ok |-> FALSE, store |-> store]

\* converting a directory: every source is loaded without overwriting, whatever
\* becomes of the others
RECURSIVE Batch(_, _, _)
Batch(store, srcs, out) ==
  IF srcs = <<>> THEN store
  ELSE Batch(Load(store, Head(srcs).name, Head(srcs).r, "", out, FALSE).store, Tail(srcs), out)

\* name patterns: a beginning and an end with anything between, or the name itself
Starts(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Matches(name, pat) == IF pat.star THEN Len(name) >= Len(pat.pre) + Len(pat.suf) /\ Starts(name, pat.pre) /\ Ends(name, pat.suf)
                      ELSE name = pat.pre

\* reading a converted file: its OBS and NAV groups
Readable(store, f) == f \in DOMAIN store /\ store[f].kind = "nc" /\ DOMAIN store[f].g \cap {"OBS", "NAV"} # {}
=============================================================================
