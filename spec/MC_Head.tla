-------------------------------- MODULE MC_Head --------------------------------
(* A reader that takes header records one after the other agrees with the       *)
(* declarative view after every record; the record sequences are exported.      *)
EXTENDS Header, Json
CONSTANTS MaxLen, Fam, Alphabet
VARIABLES rs, hd, pos, iv, ts, corr
vars == <<rs, hd, pos, iv, ts, corr>>

R(l, t, n, tm, s, k) == [lab |-> l, txt |-> t, num |-> n, t |-> tm, sys |-> s, key |-> k]
Rec == [p1 |-> R("APPROX POSITION XYZ", "1 2 3", <<"1", "2", "3">>, <<>>, "", ""),
        p2 |-> R("APPROX POSITION XYZ", "4 5 6", <<"4", "5", "6">>, <<>>, "", ""),
        p0 |-> R("APPROX POSITION XYZ", "", <<>>, <<>>, "", ""),
        i1 |-> R("INTERVAL", "30", <<"30">>, <<>>, "", ""), i2 |-> R("INTERVAL", "15", <<"15">>, <<>>, "", ""),
        f1 |-> R("TIME OF FIRST OBS", "a GPS", <<>>, <<1, 0>>, "GPS", ""), f2 |-> R("TIME OF FIRST OBS", "b GLO", <<>>, <<2, 0>>, "GLO", ""),
        l1 |-> R("TIME OF LAST OBS", "c", <<>>, <<3, 0>>, "", ""),
        m1 |-> R("REC # / TYPE / VERS", "1 X 1", <<>>, <<>>, "", "X"), m2 |-> R("REC # / TYPE / VERS", "2 Y", <<>>, <<>>, "", "Y"),
        c1 |-> R("COMMENT", "END OF HEADER", <<>>, <<>>, "", ""), c2 |-> R("COMMENT", "", <<>>, <<>>, "", ""),
        c3 |-> R("COMMENT", "INTERVAL", <<>>, <<>>, "", ""), e1 |-> R("", "", <<>>, <<>>, "", ""),
        o1 |-> R("RCV CLOCK OFFS APPL", "1", <<"1">>, <<>>, "", ""),
        ga |-> R("IONOSPHERIC CORR", "GPSA", <<"1", "2", "3", "4">>, <<>>, "", "GPSA"), gb |-> R("IONOSPHERIC CORR", "GPSB", <<"5", "6", "7", "8">>, <<>>, "", "GPSB"),
        g2 |-> R("IONOSPHERIC CORR", "GPSA", <<"9", "2", "3", "4">>, <<>>, "", "GPSA"), ea |-> R("IONOSPHERIC CORR", "GAL", <<"1", "2", "3">>, <<>>, "", "GAL"),
        ba |-> R("IONOSPHERIC CORR", "BDSA", <<"1", "2", "3", "4">>, <<>>, "", "BDSA"), bb |-> R("IONOSPHERIC CORR", "BDSB", <<"5", "6", "7", "8">>, <<>>, "", "BDSB"),
        ta |-> R("TIME SYSTEM CORR", "GPUT", <<"1", "2", "3", "4">>, <<>>, "", "GPUT"), tb |-> R("TIME SYSTEM CORR", "GLUT", <<"5", "6", "7", "8">>, <<>>, "", "GLUT"),
        a2 |-> R("ION ALPHA", "1", <<"1", "2", "3", "4">>, <<>>, "", ""), b2 |-> R("ION BETA", "5", <<"5", "6", "7", "8">>, <<>>, "", ""),
        b3 |-> R("ION BETA", "9", <<"9", "6", "7", "8">>, <<>>, "", ""), s1 |-> R("LEAP SECONDS", "18", <<>>, <<>>, "", "")]

Init == rs = <<>> /\ hd = [x \in {} |-> ""] /\ pos = <<>> /\ iv = <<>> /\ ts = <<>> /\ corr = [x \in {} |-> <<>>]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Read(x) ==
  LET r == Rec[x]
  IN  /\ Len(rs) < MaxLen
      /\ rs' = Append(rs, r)
      /\ hd' = IF r.lab \in Apart(Fam) THEN hd
               ELSE IF Obs(Fam) /\ r.lab \in DOMAIN hd THEN Put(hd, r.lab, Join(<<hd[r.lab], r.txt>>)) ELSE Put(hd, r.lab, r.txt)
      /\ pos' = IF r.lab = "APPROX POSITION XYZ" /\ Len(pos) < 3 THEN pos \o r.num ELSE pos
      /\ iv' = IF r.lab = "INTERVAL" /\ iv = <<>> THEN r.num ELSE iv
      /\ ts' = IF r.lab = "TIME OF FIRST OBS" /\ ts = <<>> THEN r.t ELSE ts
      /\ corr' = IF r.lab = "IONOSPHERIC CORR" THEN Put(corr, r.key, r.num) ELSE corr
Next == (\E x \in Alphabet : Read(x)) \/ (Len(rs) = MaxLen /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Agrees == /\ hd = HeadView(Fam, rs) /\ pos = Position(rs) /\ iv = Interval(rs)
          /\ ts = Time(rs, "TIME OF FIRST OBS") /\ corr = Corr(rs, "IONOSPHERIC CORR")
Emit == PrintT("@@" \o ToJson(rs))
=============================================================================
