------------------------------- MODULE NavFields -------------------------------
(* Names of broadcast parameters, by system and layout.                        *)
EXTENDS Integers, Sequences, FiniteSets

Kepler(iod) == <<"SVclockBias", "SVclockDrift", "SVclockDriftRate", iod, "Crs", "DeltaN", "M0",
   "Cuc", "Eccentricity", "Cus", "sqrtA", "Toe", "Cic", "Omega0", "Cis", "Io", "Crc", "omega",
   "OmegaDot", "IDOT">>
GpsTail == <<"CodesL2", "GPSWeek", "L2Pflag", "SVacc", "health", "TGD", "IODC", "TransTime",
             "FitIntvl">>
Vector(a, b) == <<"SVclockBias", "SVrelFreqBias", "MessageFrameTime", "X", "dX", "dX2", "health",
   "Y", "dY", "dY2", a, "Z", "dZ", "dZ2", b>>

Fields2(sys) ==
  CASE sys = "G" -> Kepler("IODE") \o GpsTail
    [] sys = "R" -> Vector("FreqNum", "AgeOpInfo")
    [] sys = "E" -> Kepler("IODnav") \o <<"DataSrc", "GALWeek", "SISA", "health", "BGDe5a",
                                          "BGDe5b", "TransTime">>

(* RINEX 3: the names of the n values a record of this system has; <<>> when   *)
(* no known layout has n values.                                               *)
Gps3 == Kepler("IODE") \o GpsTail \o <<"spare0", "spare1">>
Bds3 == Kepler("AODE") \o <<"spare0", "BDTWeek", "spare1", "SVacc", "SatH1", "TGD1", "TGD2",
                            "TransTime", "AODC", "spare2", "spare3">>
Gal3 == Kepler("IODnav") \o <<"DataSrc", "GALWeek", "spare0", "SISA", "health", "BGDe5a", "BGDe5b",
                              "TransTime", "spare1", "spare2", "spare3">>
Irn3 == Kepler("IODEC") \o <<"spare0", "BDTWeek", "spare1", "URA", "health", "TGD", "spare2",
                             "TransTime", "spare3", "spare4", "spare5">>

Fields3(sys, n) ==
  CASE sys = "G" -> IF n \in 28..31 THEN SubSeq(Gps3, 1, n) ELSE <<>>
    [] sys = "J" -> IF n = 28 THEN SubSeq(Gps3, 1, 29)
                    ELSE IF n \in 29..31 THEN SubSeq(Gps3, 1, n) ELSE <<>>
    [] sys = "C" -> IF n = 27 THEN SubSeq(Bds3, 1, 20) \o <<Bds3[22]>> \o SubSeq(Bds3, 24, 29)
                    ELSE IF n = 28 THEN SubSeq(Bds3, 1, 22) \o SubSeq(Bds3, 24, 29)
                    ELSE IF n \in 29..31 THEN SubSeq(Bds3, 1, n) ELSE <<>>
    [] sys = "E" -> IF n = 27 THEN SubSeq(Gal3, 1, 22) \o SubSeq(Gal3, 24, 28)
                    ELSE IF n \in {28, 29, 31} THEN SubSeq(Gal3, 1, n) ELSE <<>>
    [] sys = "I" -> IF n = 28 THEN SubSeq(Irn3, 1, n) ELSE IF n = 31 THEN Irn3 ELSE <<>>
    [] sys = "R" -> IF n = 15 THEN Vector("FreqNum", "AgeOpInfo") ELSE <<>>
    [] sys = "S" -> IF n = 15 THEN Vector("URA", "IODN") ELSE <<>>

AllNames(sys) ==
  LET q == CASE sys \in {"G", "J"} -> Gps3 [] sys = "C" -> Bds3 [] sys = "E" -> Gal3
             [] sys = "I" -> Irn3 [] sys = "R" -> Vector("FreqNum", "AgeOpInfo")
             [] sys = "S" -> Vector("URA", "IODN")
  IN  {q[i] : i \in 1..Len(q)}

(* State vectors of GLONASS and SBAS are written in km and read in m: a value  *)
(* scaled by 1000 is written as the negated value number.                      *)
StateVector == {"X", "Y", "Z", "dX", "dY", "dZ", "dX2", "dY2", "dZ2"}
Scaled(sys, name, v) == IF sys \in {"R", "S"} /\ name \in StateVector THEN -v ELSE v
=============================================================================
