-------------------------------- MODULE TracePlot -------------------------------
(* Validates recorded figures. A case is either what was plotted (parts: files   *)
(* with the options they were read with) or the rows of a location table; figs   *)
(* are the axes the code made.                                                   *)
EXTENDS Plot, Json, IOUtils

O2 == INSTANCE Obs2 WITH PerLine <- 5, SatsPerLine <- 12
O3 == INSTANCE Obs3
N2 == INSTANCE Nav2
N3 == INSTANCE Nav3

Cases == ndJsonDeserialize(IOEnv.CASES)
Clause(name, failed) == IF failed THEN {name} ELSE {}
Verdict(case, v) == IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> case.id, clauses |-> SetToSeq(v)]))

CellsOf(p) == CASE p.fam = "obs2" -> O2!CompleteCells(O2!Read(p.h, p.o, p.lines))
                [] p.fam = "obs3" -> O3!CompleteCells(O3!Read(p.h, p.o, p.lines))
                [] p.fam = "nav2" -> N2!CompleteCells(p.h, N2!Read(p.h, p.o, p.lines))
                [] p.fam = "nav3" -> N3!CellsOf(N3!CompleteRecs(N3!Read(p.h, p.o, p.lines)))
                [] p.fam = "sp3" -> {}

\* fig: [title, label, legend, curves: sequence of [name, pts], marks]
JudgePanel(p, cells, name, figs) ==
  LET f == SelectSeq(figs, LAMBDA x : x.label = name)
  IN  IF Len(f) # 1 THEN {IF f = <<>> THEN "PanelMissing" ELSE "PanelTwice"}
      ELSE LET g   == f[1]
               got == UNION {{<<q[1], g.curves[i].name, q[2]>> : q \in ToSet(g.curves[i].pts)} : i \in 1..Len(g.curves)}
           IN  Clause("PointLost", ~(Panel(cells, name) \subseteq got))
               \cup Clause("PointInvented", ~(got \subseteq Panel(cells, name)))
               \cup Clause("Title", g.title # p.title)
               \cup Clause("Legend", g.legend # [i \in 1..Len(g.curves) |-> g.curves[i].name])
               \cup Clause("CurveTwice", Cardinality({g.curves[i].name : i \in 1..Len(g.curves)}) # Len(g.curves))
               \cup Clause("CurveOrder", \E i \in 1..Len(g.curves) : \E j \in 1..(Len(g.curves[i].pts) - 1) :
                                              ~Less(g.curves[i].pts[j][1], g.curves[i].pts[j + 1][1]))
JudgeObs(p, figs) ==
  LET cells == CellsOf(p)
  IN  UNION {JudgePanel(p, cells, n, figs) : n \in Panels(cells)}

\* millionths of a degree; the longitude goes round
Abs1(x) == IF x < 0 THEN -x ELSE x
Close(a, b) == LET d == Abs1(a[1] - b[1]) IN (d <= 2 \/ d >= 359999998) /\ Abs1(a[2] - b[2]) <= 2
JudgeNav(p, figs) ==
  LET cells == CellsOf(p)
      maps  == SelectSeq(figs, LAMBDA x : x.label = "")
      due   == Tracks(cells)
  IN  IF Len(maps) # 1 THEN Clause("MapMissing", maps # <<>> \/ due # {})
      ELSE LET m == SelectSeq(maps[1].curves, LAMBDA c : c.pts # <<>>)
               names == {m[i].name : i \in 1..Len(m)}
           IN  Clause("TrackLost", ~(due \subseteq names))
               \cup Clause("TrackInvented", ~(names \subseteq due))
               \cup Clause("TrackTwice", Cardinality(names) # Len(m))
               \cup Clause("Track", \E i \in 1..Len(m) : m[i].name \in due /\
                      LET w == Track(cells, m[i].name)
                      IN  Len(w) # Len(m[i].pts) \/ \E j \in 1..Len(w) : ~Close(m[i].pts[j], p.refs[w[j]]))

JudgeData(case) ==
  LET obs == SelectSeq(case.parts, LAMBDA p : p.fam \in {"obs2", "obs3"})
      nav == SelectSeq(case.parts, LAMBDA p : p.fam \in {"nav2", "nav3"})
      labels == UNION {Panels(CellsOf(obs[i])) : i \in 1..Len(obs)} \cup (IF nav = <<>> THEN {} ELSE {""})
  IN  UNION {JudgeObs(obs[i], case.figs) : i \in 1..Len(obs)}
      \cup UNION {JudgeNav(nav[i], case.figs) : i \in 1..Len(nav)}
      \cup Clause("PanelInvented", ~({case.figs[i].label : i \in 1..Len(case.figs)} \subseteq labels))

Count(S, x) == Len(SelectSeq(S, LAMBDA y : y = x))
JudgeMap(case) ==
  IF Len(case.figs) # 1 THEN Clause("MapMissing", case.figs # <<>> \/ case.rows # <<>>)
  ELSE LET m    == case.figs[1].marks
           got  == [i \in 1..Len(m) |-> <<m[i].name, m[i].lat, m[i].lon, m[i].colour>>]
           want == [i \in 1..Len(case.rows) |-> Marker(case.rows[i])]
           \* the size of the marker of a row, where it is the only one of its name
           of(n) == CHOOSE i \in 1..Len(m) : m[i].name = n
           one  == {i \in 1..Len(case.rows) : Len(SelectSeq(m, LAMBDA x : x.name = case.rows[i].name)) = 1}
       IN  Clause("MarkerLost", \E x \in ToSet(want) : Count(got, x) < Count(want, x))
           \cup Clause("MarkerInvented", \E x \in ToSet(got) : Count(got, x) > Count(want, x))
           \cup Clause("MarkerSize", \E i, j \in one : Larger(case.rows[i], case.rows[j])
                                        /\ m[of(case.rows[i].name)].size <= m[of(case.rows[j].name)].size)

Judge(case) == IF ~case.ok THEN {"Failed"} ELSE IF case.k = "map" THEN JudgeMap(case) ELSE JudgeData(case)

VARIABLE l
Init == l = 1
Next == l <= Len(Cases) /\ Verdict(Cases[l], Judge(Cases[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Cases)
=============================================================================
