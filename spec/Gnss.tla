-------------------------------- MODULE Gnss --------------------------------
(* What the supported GNSS sentences mean.  fs are the comma-separated fields *)
(* of the sentence (field 0 is its type).  Numbers are <<sign, integer part,  *)
(* billionths>>, positions the same in minutes of arc, times moments.  Each   *)
(* reader returns <<>> for "not given", <<v>> for a value, or Bad.            *)
EXTENDS Codes, Calendar

Bad == << "bad", "bad" >>              \* a field that is neither empty nor well formed
Num(fs, n)       == LET s == Field(fs, n) IN IF s = <<>> THEN <<>> ELSE
                    LET d == Dec(s) IN IF d = <<>> THEN Bad ELSE d
Nat0(fs, n, max) == LET s == Field(fs, n) IN IF s = <<>> THEN <<>> ELSE
                    LET d == UInt(s, max) IN IF d = <<>> THEN Bad ELSE d
IsBad(v) == Len(v) = 2
Lenient(v) == IF IsBad(v) THEN <<>> ELSE v
AnyBad(vs) == \E i \in 1..Len(vs) : IsBad(vs[i])

(* Status letters and digits, "" where the field is empty. *)
Letter(fs, n) == LET s == Field(fs, n) IN
                 IF s = <<>> THEN "" ELSE IF Len(s) = 1 /\ s[1] > 31 /\ s[1] < 127
                                          THEN SubSeq(Printable, s[1] - 31, s[1] - 31) ELSE "other"

RECURSIVE Digits(_, _)                  \* how many digits follow from position i
Digits(s, i) == IF i > Len(s) THEN 0 ELSE IF IsDigit(s[i]) THEN 1 + Digits(s, i + 1) ELSE 0

(* Degrees and minutes: nd digits of degrees, two digits of minutes, a dot and *)
(* at least one digit of fraction; the hemisphere letter negates.              *)
Angle(fs, n, nd, negative) ==
  LET s == Field(fs, n)
      neg == Letter(fs, n + 1) = negative
  IN IF s = <<>> THEN <<>>
     ELSE IF Digits(s, 1) # nd + 2 \/ Len(s) < nd + 4 \/ s[nd + 3] # Dot \/ Digits(s, nd + 4) = 0 THEN Bad
     ELSE LET deg == SatVal(SubSeq(s, 1, nd), 999)
              mm  == SatVal(SubSeq(s, nd + 1, nd + 2), 99)
              fr  == SubSeq(s, nd + 4, nd + 3 + Digits(s, nd + 4))
          IN << Number(neg, deg * 60 + mm, Nano(fr)) >>
North(fs, n) == Angle(fs, n, 2, "S")
East(fs, n)  == Angle(fs, n, 3, "W")

(* Two-character numbers of hhmmss and ddmmyy. *)
Two(s, i) == SubSeq(s, i, IF i + 1 <= Len(s) THEN i + 1 ELSE Len(s))
Two0(s, i) == IF i > Len(s) THEN <<>> ELSE UInt(Two(s, i), 99)
Year2(s, i) == IF i > Len(s) THEN <<>>
               ELSE LET t == Two(s, i) IN
                    IF Len(t) = 2 /\ t[1] = Minus
                    THEN LET u == UInt(Tail(t), 99) IN IF u = <<>> \/ t[2] = Plus THEN <<>> ELSE << 0 - u[1] >>
                    ELSE UInt(t, 99)
TimeOn(y, m, d, s) ==
  LET h == Two0(s, 1)  mi == Two0(s, 3)  se == Two0(s, 5)
  IN IF h = <<>> \/ mi = <<>> \/ se = <<>> THEN <<>> ELSE Moment(y, m, d, h[1], mi[1], se[1])
TimeToday(now, s) == TimeOn(now[1], now[2], now[3], s)
DateAndTime(now, ds, ts) ==
  LET d == Two0(ds, 1)  m == Two0(ds, 3)  y == Year2(ds, 5)
  IN IF d = <<>> \/ m = <<>> \/ y = <<>> THEN <<>>
     ELSE TimeOn((now[1] \div 100) * 100 + y[1], m[1], d[1], ts)

(* Navigation system by talker. *)
NavSystems == Str("GN") :> "Combination" @@ Str("GP") :> "Gps" @@ Str("GL") :> "Glonass"
              @@ Str("GA") :> "Galileo" @@ Str("BD") :> "Beidou" @@ Str("GI") :> "Navic"
              @@ Str("QZ") :> "Qzss"
NavSystem(t) == IF t \in DOMAIN NavSystems THEN NavSystems[t] ELSE "Other"

QualityNames == << "Invalid", "GpsFix", "DGpsFix", "PpsFix", "RealTimeKinematic",
                   "RealTimeKinematicFloat", "DeadReckoning", "ManualInputMode", "SimulationMode" >>
Quality(v) == IF v <= 8 THEN QualityNames[v + 1] ELSE "Invalid"

FaaModes == Str("A") :> "Autonomous" @@ Str("D") :> "Differential" @@ Str("E") :> "Estimated"
            @@ Str("N") :> "NotValid" @@ Str("S") :> "Simulator"
Faa(s) == IF s \in DOMAIN FaaModes THEN <<FaaModes[s]>> ELSE <<>>

Invalid == [k |-> "Err", e |-> "Invalid"]

Gga(fs, nav, now) ==
  LET lat == North(fs, 2)  lon == East(fs, 4)  q == Nat0(fs, 6, 255)  n == Nat0(fs, 7, 255)
      hdop == Num(fs, 8)  alt == Num(fs, 9)  geo == Num(fs, 11)  age == Num(fs, 13)
      ref == Nat0(fs, 14, 65535)
  IN IF AnyBad(<<lat, lon, q, n, hdop, alt, geo, age, ref>>) THEN Invalid
     ELSE [ k |-> "Gga", src |-> nav, time |-> TimeToday(now, Field(fs, 1)), lat |-> lat, lon |-> lon,
            tlat |-> lat, tlon |-> lon, q |-> Quality(IF q = <<>> THEN 0 ELSE q[1]), n |-> n,
            hdop |-> hdop, alt |-> alt, geo |-> geo, age |-> age, ref |-> ref ]

Rmc(fs, nav, now) ==
  LET st == Letter(fs, 2)  lat == North(fs, 3)  lon == East(fs, 5)  sog == Num(fs, 7)  brg == Num(fs, 8)
      v == Num(fs, 10)  side == Letter(fs, 11)
      var == IF v = <<>> \/ IsBad(v) THEN v
             ELSE IF side = "E" THEN v
             ELSE IF side = "W" THEN << <<IF v[1][2] = 0 /\ v[1][3] = 0 THEN v[1][1] ELSE 0 - v[1][1],
                                            v[1][2], v[1][3]>> >>
             ELSE Bad
  IN IF ~(st \in {"A", "V", ""}) \/ AnyBad(<<lat, lon, sog, brg, var>>) THEN Invalid
     ELSE [ k |-> "Rmc", src |-> nav, time |-> DateAndTime(now, Field(fs, 9), Field(fs, 1)),
            active |-> CASE st = "A" -> <<TRUE>> [] st = "V" -> <<FALSE>> [] OTHER -> <<>>,
            lat |-> lat, lon |-> lon, tlat |-> lat, tlon |-> lon, sog |-> sog, brg |-> brg, var |-> var ]

Gsa(fs, nav) ==
  LET m1 == Letter(fs, 1)  m2 == Letter(fs, 2)
      prns == [i \in 1..12 |-> Nat0(fs, i + 2, 255)]
      pdop == Num(fs, 15)  hdop == Num(fs, 16)  vdop == Num(fs, 17)
  IN IF ~(m1 \in {"M", "A", ""}) \/ ~(m2 \in {"1", "2", "3", ""})
        \/ AnyBad(prns) \/ AnyBad(<<pdop, hdop, vdop>>) THEN Invalid
     ELSE [ k |-> "Gsa", src |-> nav,
            auto |-> CASE m1 = "A" -> <<TRUE>> [] m1 = "M" -> <<FALSE>> [] OTHER -> <<>>,
            fix |-> CASE m2 = "1" -> <<"NotAvailable">> [] m2 = "2" -> <<"Fix2D">>
                      [] m2 = "3" -> <<"Fix3D">> [] OTHER -> <<>>,
            prns |-> FlattenSeq(prns), pdop |-> pdop, hdop |-> hdop, vdop |-> vdop ]

Vtg(fs, nav) ==
  [ k |-> "Vtg", src |-> nav, cogt |-> Lenient(Num(fs, 1)), cogm |-> Lenient(Num(fs, 3)),
    kn |-> Lenient(Num(fs, 5)), kph |-> Lenient(Num(fs, 7)), faa |-> Faa(Field(fs, 9)) ]

Gll(fs, nav, now) ==
  LET lat == North(fs, 1)  lon == East(fs, 3)  v == Letter(fs, 6)
  IN IF AnyBad(<<lat, lon>>) THEN Invalid
     ELSE [ k |-> "Gll", src |-> nav, lat |-> lat, lon |-> lon, tlat |-> lat, tlon |-> lon,
            time |-> TimeToday(now, Field(fs, 5)),
            valid |-> CASE v = "A" -> <<TRUE>> [] v = "V" -> <<FALSE>> [] OTHER -> <<>>,
            faa |-> Faa(Field(fs, 7)) ]

(* The up to four satellites of one GSV sentence; a satellite without a readable *)
(* number is left out, its other unreadable values are not available.            *)
Satellites(fs, nav) ==
  FlattenSeq([j \in 1..4 |->
    LET b == 4 * j  prn == Lenient(Nat0(fs, b, 255))
    IN IF prn = <<>> THEN <<>>
       ELSE << [ src |-> nav, prn |-> prn[1], el |-> Lenient(Nat0(fs, b + 1, 255)),
                 az |-> Lenient(Nat0(fs, b + 2, 65535)), snr |-> Lenient(Nat0(fs, b + 3, 255)) ] >>])
=============================================================================
