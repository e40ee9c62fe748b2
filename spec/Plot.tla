---------------------------------- MODULE Plot ----------------------------------
(* What the plots show: carrier phases over time, ground tracks of satellites,   *)
(* and receivers on a map.                                                       *)
EXTENDS Base

------------------------------------------------------------------------------
(* Observations: one panel for each of these measurements that has some value.  *)
(* cells: <<time, satellite, name, value>>; a point of a panel is               *)
(* <<time, satellite, value>>.                                                  *)
Phases == {"L1", "L1C"}
Panel(cells, p) == {<<c[1], c[2], c[4]>> : c \in {x \in cells : x[3] = p}}
Panels(cells) == {p \in Phases : Panel(cells, p) # {}}

(* the same, drawn: one curve for every satellite, extended epoch by epoch *)
Extend(curves, cells, p, t) ==
  [s \in DOMAIN curves |->
     LET v == {c \in cells : c[1] = t /\ c[2] = s /\ c[3] = p}
     IN  IF v = {} THEN curves[s] ELSE Append(curves[s], <<t, (CHOOSE c \in v : TRUE)[4]>>)]
Points(curves) == UNION {{<<curves[s][i][1], s, curves[s][i][2]>> : i \in 1..Len(curves[s])} : s \in DOMAIN curves}

------------------------------------------------------------------------------
(* Navigation: the satellites of these systems move on the map, each along the  *)
(* points of its records in the order of their times. A record is known by its  *)
(* value of SVclockBias.                                                        *)
OnMap == {"G", "R", "E", "S"}
Moves(sv) == SubSeq(sv, 1, 1) \in OnMap
Of(cells, sv) == {c \in cells : c[2] = sv /\ c[3] = "SVclockBias"}
Track(cells, sv) ==
  LET q == SetToSortSeq(Of(cells, sv), LAMBDA a, b : Less(a[1], b[1]))
  IN  [i \in 1..Len(q) |-> q[i][4]]
Tracks(cells) == {sv \in {c[2] : c \in cells} : Moves(sv) /\ Of(cells, sv) # {}}

(* the same, drawn: each record is put into the track of its name *)
Put(track, t, v) ==
  LET k == Cardinality({i \in 1..Len(track) : Less(track[i][1], t)})
  IN  SubSeq(track, 1, k) \o <<<<t, v>>>> \o SubSeq(track, k + 1, Len(track))

------------------------------------------------------------------------------
(* Receivers: one marker for each row [name, lat, lon, ms]; ms is the interval  *)
(* in milliseconds, negative when there is none.                                *)
Colour(ms) == IF ms < 0 THEN "b" ELSE IF ms < 5000 THEN "r" ELSE IF ms < 15000 THEN "orange"
              ELSE IF ms < 30000 THEN "g" ELSE "b"
Marker(row) == <<row.name, row.lat, row.lon, Colour(row.ms)>>
\* the shorter the interval the larger the marker
Larger(a, b) == a.ms > 0 /\ b.ms > 0 /\ a.ms < b.ms
=============================================================================
