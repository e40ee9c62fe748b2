-------------------------------- MODULE MC_Store --------------------------------
(* Bounded histories of conversions; exported as the sequence of actions.       *)
EXTENDS Store, TLC, Json
CONSTANTS Sources, Outs, MaxLen,
          Alts       \* groups asked for: "" and perhaps others
VARIABLES store, hist, wrote, last
vars == <<store, hist, wrote, last>>

What == [A |-> "obs", B |-> "obs", C |-> "nav", D |-> "fail", E |-> "sp3"]
R(s) == [what |-> What[s], data |-> s]
Out == [dir |-> [t |-> "dir", name |-> "out"], x |-> [t |-> "file", name |-> "out/x.nc"],
        a |-> [t |-> "file", name |-> "out/A.nc"],     \* the name a conversion into the directory takes
        none |-> [t |-> "none", name |-> ""], other |-> [t |-> "other", name |-> "out/x.dat"],
        orphan |-> [t |-> "orphan", name |-> "no/x.nc"]]
Batches == {<<"A", "D", "C">>, <<"A", "B", "C", "D", "E">>}

Init == store = [x \in {} |-> Junk] /\ hist = <<>> /\ wrote = <<>> /\ last = [a |-> "", ow |-> FALSE]
Running == Len(hist) < MaxLen
Log(x) == hist' = Append(hist, x)
LoadIt(s, o, ow, gr) ==
  /\ Running
  /\ LET r == Load(store, s, R(s), gr, Out[o], ow)
         f == Target(Out[o], s)
     IN  /\ store' = r.store
         /\ wrote' = IF r.ok /\ Out[o].t # "none" THEN Append(wrote, [f |-> f, g |-> Group(What[s], gr), d |-> s, ow |-> ow]) ELSE wrote
         /\ last' = [a |-> "load", ow |-> ow, ok |-> r.ok, f |-> f]
  /\ Log([a |-> "load", s |-> s, o |-> o, ow |-> ow, gr |-> gr])
Convert(ss) ==
  /\ Running
  /\ LET srcs == [i \in 1..Len(ss) |-> [name |-> ss[i], r |-> R(ss[i])]]
         st == Batch(store, srcs, Out["dir"])
         new == SelectSeq(srcs, LAMBDA q : q.r.what # "fail" /\ Accepts(store, Target(Out["dir"], q.name), Group(q.r.what, ""), FALSE))
     IN  /\ store' = st
         /\ wrote' = wrote \o [i \in 1..Len(new) |-> [f |-> Target(Out["dir"], new[i].name), g |-> Group(new[i].r.what, ""), d |-> new[i].name, ow |-> FALSE]]
         /\ last' = [a |-> "batch", ow |-> FALSE, ok |-> TRUE, f |-> ""]
  /\ Log([a |-> "batch", ss |-> ss])
Spoil(f) == /\ Running /\ store' = Put(store, f, Junk) /\ last' = [a |-> "spoil", ow |-> TRUE, ok |-> TRUE, f |-> f]
            /\ wrote' = SelectSeq(wrote, LAMBDA w : w.f # f) /\ Log([a |-> "junk", f |-> f])
Delete(f) == /\ Running /\ f \in DOMAIN store /\ store' = Drop(store, f) /\ last' = [a |-> "remove", ow |-> TRUE, ok |-> TRUE, f |-> f]
             /\ wrote' = SelectSeq(wrote, LAMBDA w : w.f # f) /\ Log([a |-> "remove", f |-> f])
Read(f) == /\ Running /\ UNCHANGED <<store, wrote>> /\ Log([a |-> "read", f |-> f]) /\ last' = [a |-> "read", ow |-> FALSE, ok |-> TRUE, f |-> f]
Next == \/ \E s \in Sources, o \in Outs, ow \in BOOLEAN, gr \in Alts : (gr = "" \/ Out[o].t = "file") /\ LoadIt(s, o, ow, gr)
        \/ \E ss \in Batches : Convert(ss)
        \/ \E f \in {"out/x.nc", "out/A.nc"} : Spoil(f) \/ Delete(f) \/ Read(f)
        \/ (~Running /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* a group holds what was last written to it, and a group that was written is
\* there unless the file was overwritten since
LastWrite(f, g) == {i \in 1..Len(wrote) : wrote[i].f = f /\ wrote[i].g = g
                       /\ \A j \in (i + 1)..Len(wrote) : ~(wrote[j].f = f /\ (wrote[j].g = g \/ wrote[j].ow))}
Faithful == \A f \in DOMAIN store : store[f].kind = "nc" =>
              \A g \in {"OBS", "NAV", "/", "alt"} :
                 (g \in DOMAIN store[f].g) <=> (\E i \in LastWrite(f, g) : store[f].g[g] = wrote[i].d)
NoEmpty == \A f \in DOMAIN store : store[f].kind = "nc" => DOMAIN store[f].g # {}
FailsLeaveNothing == \A f \in DOMAIN store : \A g \in DOMAIN store[f].g : store[f].g[g] # "D"
\* without overwriting no group changes or goes, and nothing at all changes in a refusal
Protected == [][(~last'.ow => \A f \in DOMAIN store : f \in DOMAIN store' /\ store'[f].kind = store[f].kind
                     /\ \A g \in DOMAIN store[f].g : g \in DOMAIN store'[f].g /\ store'[f].g[g] = store[f].g[g])
                /\ (~last'.ok => store' = store)]_vars
\* other files never change
Local == [][last'.a # "batch" => \A f \in DOMAIN store \cup DOMAIN store' :
               f = last'.f \/ (f \in DOMAIN store /\ f \in DOMAIN store' /\ store[f] = store'[f])]_vars
\* converting a directory does not depend on the order of its files
OrderFree == \A ss \in Batches :
   LET srcs == [i \in 1..Len(ss) |-> [name |-> ss[i], r |-> R(ss[i])]]
       rev  == Reverse(srcs)
   IN  Batch(store, srcs, Out["dir"]) = Batch(store, rev, Out["dir"])
Emit == Len(hist) = MaxLen => PrintT("@@" \o ToJson(hist))
=============================================================================
