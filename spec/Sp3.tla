---------------------------------- MODULE Sp3 ----------------------------------
(* SP3 orbit files.  A header h has h.svs (all satellites, in order).  Lines:  *)
(*   [k |-> "T", y, mo, d, h, mi, s, f]  epoch; s, mi may be 60 and h 24       *)
(*   [k |-> "P", sv, c]  position and clock of a satellite: four values        *)
(*        sv = <<letter or " ", number, pad>> as written, e.g. "G01", "  1"    *)
(*   [k |-> "V", sv, c]  velocity and clock rate: four values                  *)
(*   [k |-> "X"]  unreadable epoch line: what follows belongs to no epoch      *)
(*   [k |-> "J"]         EP, EV, comment or unknown line;  [k |-> "EOF"]       *)
EXTENDS Base

EpochTime(ln) == <<Seconds(ln.y, ln.mo, ln.d, ln.h, ln.mi, ln.s), ln.f \div 100>>
Id(sv) == (IF sv[1] = " " THEN "" ELSE sv[1])
          \o (IF sv[3] = "0" THEN Num2(sv[2]) ELSE ToString(sv[2]))
PNames == <<"position.x", "position.y", "position.z", "clock">>
VNames == <<"velocity.x", "velocity.y", "velocity.z", "dclock">>

Start == [m |-> "open", t |-> <<>>, eps |-> <<>>, out |-> {}]

CanReadEpoch(st, ln) == st.m \in {"open", "lost"} /\ ln.k = "T"
ReadEpoch(st, ln) == [st EXCEPT !.m = "open", !.t = EpochTime(ln), !.eps = Append(@, EpochTime(ln))]

CanReadSat(st, ln) == st.m = "open" /\ st.t # <<>> /\ ln.k \in {"P", "V"}
ReadSat(st, ln) ==
  LET nm == IF ln.k = "P" THEN PNames ELSE VNames
  IN  [st EXCEPT !.out = @ \cup {<<st.t, Id(ln.sv), nm[i], ln.c[i]>> : i \in {z \in 1..4 : ln.c[z] >= 0}}]

CanLose(st, ln) == st.m \in {"open", "lost"} /\ ln.k = "X"
Lose(st) == [st EXCEPT !.m = "lost"]

CanClose(st, ln) == st.m \in {"open", "lost"} /\ ln.k = "EOF"
Close(st) == [st EXCEPT !.m = "closed"]

Step(st, ln) == IF CanReadEpoch(st, ln) THEN ReadEpoch(st, ln)
                ELSE IF CanReadSat(st, ln) THEN ReadSat(st, ln)
                ELSE IF CanLose(st, ln) THEN Lose(st)
                ELSE IF CanClose(st, ln) THEN Close(st)
                ELSE st
Read(lines) == FoldLeft(LAMBDA st, ln : Step(st, ln), Start, lines)
Cells(st) == st.out
CompleteCells(st) == IF st.eps = <<>> THEN {} ELSE {c \in st.out : c[1] # st.eps[Len(st.eps)]}

EpochAt(lines) == {i \in 1..Len(lines) : lines[i].k = "T"}
View(lines) ==
  UNION {LET e == SetMax({z \in EpochAt(lines) : z < i})
             nm == IF lines[i].k = "P" THEN PNames ELSE VNames
         IN {<<EpochTime(lines[e]), Id(lines[i].sv), nm[q], lines[i].c[q]>> : q \in 1..4}
         : i \in {z \in 1..Len(lines) : lines[z].k \in {"P", "V"}}}
=============================================================================
