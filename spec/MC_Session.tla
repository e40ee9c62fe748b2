------------------------------- MODULE MC_Session -------------------------------
(* Bounded sessions.  A reader works through a handle: opening it gives the     *)
(* content from the handle's position on; the position moves as lines are read. *)
(* The session is exported as the sequence of actions.                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Files, Streams, Contents, Calls, MaxLen
VARIABLES disk, pool, results, hist, done

\* a content has two lines; the reader of call k reads k's number of lines
Lines(c) == <<<<c, 1>>, <<c, 2>>>>
Reads(k) == 1 + (k % 2)
Ref(c, k) == <<k, SubSeq(Lines(c), 1, Reads(k))>>
S == INSTANCE Session

From(c, pos, k) == <<k, SubSeq(Lines(c), pos + 1, pos + Reads(k))>>

Init == /\ disk = [f \in Files |-> 0] /\ pool = [s \in Streams |-> [c |-> 0, pos |-> 0]]
        /\ results = <<>> /\ hist = <<>> /\ done = FALSE
Log(x) == hist' = Append(hist, x)
Running == ~done /\ Len(hist) < MaxLen

WriteFile(f, c) == /\ Running /\ disk' = S!Write(disk, f, c) /\ Log([a |-> "write", f |-> f, c |-> c])
                   /\ disk[f] # c /\ UNCHANGED <<pool, results, done>>
NewStream(s, c) == /\ Running /\ pool' = [pool EXCEPT ![s] = [c |-> c, pos |-> 0]] /\ pool[s].c # c
                   /\ Log([a |-> "stream", s |-> s, c |-> c]) /\ UNCHANGED <<disk, results, done>>
Seek(s, p) == /\ Running /\ pool[s].pos # p /\ pool' = [pool EXCEPT ![s].pos = p]
              /\ Log([a |-> "seek", s |-> s, p |-> p]) /\ UNCHANGED <<disk, results, done>>
\* a file is opened afresh, a stream is set to its beginning
CallFile(f, k) == /\ Running /\ results' = Append(results, [c |-> disk[f], k |-> k, r |-> From(disk[f], 0, k)])
                  /\ Log([a |-> "call", t |-> "f", i |-> f, k |-> k]) /\ UNCHANGED <<disk, pool, done>>
CallStream(s, k) ==
  /\ Running /\ LET pos == 0 IN
       /\ results' = Append(results, [c |-> pool[s].c, k |-> k, r |-> From(pool[s].c, pos, k)])
       /\ pool' = [pool EXCEPT ![s].pos = pos + Reads(k)]
  /\ Log([a |-> "call", t |-> "s", i |-> s, k |-> k]) /\ UNCHANGED <<disk, done>>
Scribble(i) == /\ Running /\ i \in 1..Len(results) /\ results[i].r # <<>>
               /\ results' = [results EXCEPT ![i].r = <<>>]
               /\ Log([a |-> "scribble", i |-> i]) /\ UNCHANGED <<disk, pool, done>>
Finish == /\ ~done /\ Len(hist) = MaxLen /\ done' = TRUE /\ UNCHANGED <<disk, pool, results, hist>>
Next == \/ \E f \in Files, c \in Contents : WriteFile(f, c)
        \/ \E s \in Streams, c \in Contents : NewStream(s, c)
        \/ \E s \in Streams, p \in 0..2 : Seek(s, p)
        \/ \E f \in Files, k \in Calls : CallFile(f, k)
        \/ \E s \in Streams, k \in Calls : CallStream(s, k)
        \/ \E i \in 1..MaxLen : Scribble(i)
        \/ Finish
        \/ (done /\ UNCHANGED <<disk, pool, results, hist, done>>)
Spec == Init /\ [][Next]_<<disk, pool, results, hist, done>>

Functional == \A i \in 1..Len(results) :
                results[i].r = <<>> \/ results[i].r = S!Returned(results[i].c, results[i].k)
\* a session worth replaying calls at least twice and ends in a call
Calling == {i \in 1..Len(hist) : hist[i].a = "call"}
Emit == done => (IF Cardinality(Calling) >= 2 /\ hist[Len(hist)].a = "call"
                 THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE)
=============================================================================
