--------------------------------- MODULE MC_Plot --------------------------------
(* Drawing step by step gives what is to be shown, for every small table of      *)
(* values, every short sequence of records and every pair of receivers; these    *)
(* are exported.                                                                 *)
EXTENDS Plot, Json
CONSTANTS NTimes, NRecs, Rows
N3 == INSTANCE Nav3

Ts == [i \in 1..NTimes |-> <<i, 0>>]
Svs == {"G01", "R02"}
Names == {"L1", "C1"}
Cell(i, s, n) == <<Ts[i], s, n, i * 4 + (IF s = "G01" THEN 0 ELSE 2) + (IF n = "L1" THEN 0 ELSE 1)>>
Cells == {Cell(i, s, n) : i \in 1..NTimes, s \in Svs, n \in Names}

Birds == {<<"G", 1>>, <<"R", 2>>, <<"C", 3>>}
Long(sys) == IF sys = "R" THEN 15 ELSE 29
Rec(b, i, v) == [sys |-> b[1], sv |-> SvName(b), t |-> Ts[i], v |-> [k \in 1..Long(b[1]) |-> v]]

Steps == {-1, 0, 1, 999, 4999, 5000, 10000, 14999, 15000, 29999, 30000, 60000}

VARIABLES k, table, curves, n, recs, tracks, rows
vars == <<k, table, curves, n, recs, tracks, rows>>
Init == /\ k \in {"obs", "nav", "map"}
        /\ table \in IF k = "obs" THEN SUBSET Cells ELSE {{}}
        /\ curves = [s \in Svs |-> <<>>] /\ n = 0 /\ recs = <<>> /\ tracks = <<>> /\ rows = <<>>
DrawEpoch == /\ k = "obs" /\ n < NTimes
             /\ curves' = Extend(curves, table, "L1", Ts[n + 1]) /\ n' = n + 1
             /\ UNCHANGED <<k, table, recs, tracks, rows>>
AddRecord == /\ k = "nav" /\ Len(recs) < NRecs
             /\ \E b \in Birds, i \in 1..Min2(NTimes, 2) :
                  LET q == Append(recs, Rec(b, i, Len(recs) + 1))
                      m == N3!Name(q, Len(q))
                  IN  /\ recs' = q
                      /\ tracks' = IF ~Moves(m) THEN tracks
                                   ELSE IF m \in DOMAIN tracks THEN [tracks EXCEPT ![m] = Put(@, Ts[i], Len(q))]
                                   ELSE (m :> <<<<Ts[i], Len(q)>>>>) @@ tracks
             /\ UNCHANGED <<k, table, curves, n, rows>>
AddRow == /\ k = "map" /\ Len(rows) < Rows
          /\ \E ms \in Steps : rows' = Append(rows, ms)
          /\ UNCHANGED <<k, table, curves, n, recs, tracks>>
Next == DrawEpoch \/ AddRecord \/ AddRow \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Upto(i) == {c \in table : c[1][1] <= i}
Drawn == k = "obs" => /\ Points(curves) = Panel(Upto(n), "L1")
                      /\ \A s \in Svs : \A i \in 1..(Len(curves[s]) - 1) : Less(curves[s][i][1], curves[s][i + 1][1])
                      /\ (Panels(Upto(n)) = {}) = (\A s \in Svs : curves[s] = <<>>)
Tracked == k = "nav" =>
  LET cells == N3!CellsOf(recs)
  IN  /\ DOMAIN tracks = Tracks(cells)
      /\ \A s \in DOMAIN tracks : [i \in 1..Len(tracks[s]) |-> tracks[s][i][2]] = Track(cells, s)
Heat(c) == CASE c = "r" -> 3 [] c = "orange" -> 2 [] c = "g" -> 1 [] c = "b" -> 0
Hotter == k = "map" => \A i, j \in 1..Len(rows) :
  /\ (rows[i] >= 0 /\ rows[i] <= rows[j] => Heat(Colour(rows[i])) >= Heat(Colour(rows[j])))
  /\ (rows[i] < 0 => Heat(Colour(rows[i])) = 0)
  /\ ~(Larger([ms |-> rows[i]], [ms |-> rows[j]]) /\ Larger([ms |-> rows[j]], [ms |-> rows[i]]))

Emit == /\ (k = "obs" /\ n = NTimes) => PrintT("@@" \o ToJson([k |-> "obs", cells |-> SetToSeq(table)]))
        /\ (k = "nav" /\ recs # <<>>) => PrintT("@@" \o ToJson([k |-> "nav", recs |-> [i \in 1..Len(recs) |-> <<recs[i].sys, recs[i].t[1]>>]]))
        /\ (k = "map" /\ rows # <<>>) => PrintT("@@" \o ToJson([k |-> "map", rows |-> rows]))
=============================================================================
