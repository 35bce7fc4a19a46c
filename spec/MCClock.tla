------------------------------ MODULE MCClock ------------------------------
(* Everything that becomes a date: the expected time of arrival of type 5, the *)
(* clock of a base station (type 4), the time of GGA and GLL and the date and  *)
(* time of RMC, seen from several moments in time.                             *)
EXTENDS NmeaParser, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CONF)       \* [plans, nows, wide, print]
Plans == { Conf.plans[i] : i \in 1..Len(Conf.plans) }
Nows  == { Conf.nows[i] : i \in 1..Len(Conf.nows) }
Wide  == Conf.wide

VARIABLES plan, today, pick, sentence
vars == <<plan, today, pick, sentence>>

Months  == IF Wide THEN 0..15 ELSE {0, 1, 2, 3, 4, 11, 12, 13, 15}
Days    == IF Wide THEN 0..31 ELSE {0, 1, 14, 28, 29, 30, 31}
Hours   == IF Wide THEN {0, 1, 12, 22, 23, 24, 25, 31} ELSE {0, 15, 23, 24, 25}
Minutes == IF Wide THEN {0, 1, 30, 58, 59, 60, 61, 63} ELSE {0, 9, 59, 60, 63}
Years4  == IF Wide THEN {0, 1, 1900, 1999, 2000, 2023, 2024, 2100, 9999, 16383} ELSE {0, 1, 1900, 2023, 2024, 16383}
TwoDigits == << "00", "01", "02", "12", "23", "24", "28", "29", "30", "31", "32", "59", "60", "61", "99",
                "", "1", "+5", "-1", " 1", "a1", "1a" >>
Dates == << "010100", "290224", "290223", "290200", "310124", "310424", "311299", "320124", "000124", "010024",
            "011324", "1501", "15012", "150124x", "abcdef", "", "150199", "0101-1" >>

(* Setting bits of a payload. *)
Put(sx, f, v) ==
  [k \in 1..Len(sx) |-> FoldLeft(LAMBDA acc, d : LET b == 6 * (k - 1) + d IN
      2 * acc + (IF b < f[1] \/ b >= f[1] + f[2] THEN (sx[k] \div (2^(5 - d))) % 2
                 ELSE (v \div (2^(f[1] + f[2] - 1 - b))) % 2), 0, <<0, 1, 2, 3, 4, 5>>)]
Base5 == TLCEval([i \in 1..71 |-> IF i = 1 THEN 5 ELSE IF i = 3 THEN 21 ELSE 0])
Base4X == TLCEval([i \in 1..28 |-> IF i = 1 THEN 4 ELSE IF i = 3 THEN 21 ELSE 0])
Carry(p) == Str("!AIVDM,1,1,,A,") \o [i \in 1..Len(p) |-> Armor(p[i])] \o Str(",0")

Picks ==
  CASE plan = "eta"  -> Months \X Days \X Hours \X Minutes
    [] plan = "base" -> Years4 \X Months \X Days \X {<<0, 0, 0>>, <<23, 59, 59>>, <<24, 0, 0>>, <<12, 60, 0>>,
                                                    <<12, 0, 60>>, <<24, 60, 60>>, <<31, 63, 63>>, <<25, 0, 0>>,
                                                    <<12, 61, 0>>, <<12, 0, 61>>}
    [] plan = "time" -> (1..Len(TwoDigits)) \X (1..Len(TwoDigits)) \X (1..Len(TwoDigits))
    [] plan = "date" -> (1..Len(Dates)) \X {"000000", "235959", "240000", "", "12", "126000", "120060"} \X {0}
Made(x) ==
  CASE plan = "eta"  -> Carry(Put(Put(Put(Put(Base5, Static5.etamonth, x[1]), Static5.etaday, x[2]),
                                      Static5.etahour, x[3]), Static5.etaminute, x[4]))
    [] plan = "base" -> Carry(Put(Put(Put(Put(Put(Put(Base4X, Base4.year, x[1]), Base4.month, x[2]), Base4.day, x[3]),
                                          Base4.hour, x[4][1]), Base4.minute, x[4][2]), Base4.second, x[4][3]))
    [] plan = "time" -> Str("$GPGLL,4916.45,N,12311.12,W,") \o Str(TwoDigits[x[1]] \o TwoDigits[x[2]] \o TwoDigits[x[3]])
                          \o Str(",A")
    [] plan = "date" -> Str("$GPRMC,") \o Str(x[2]) \o Str(",A,4916.45,N,12311.12,W,000.5,054.7,") \o Str(Dates[x[1]])
                          \o Str(",020.3,E")
Init == plan \in Plans /\ today \in Nows /\ pick = <<>> /\ sentence = <<>>
Next == pick = <<>> /\ \E x \in Picks : pick' = x /\ sentence' = Made(x) /\ UNCHANGED <<plan, today>>
Spec == Init /\ [][Next]_vars

Got == Step(Empty, today, sentence).r
IsMoment(t) == ValidDate(t[1], t[2], t[3]) /\ ValidTime(t[4], t[5], t[6])
(* An arrival is the next time the clock shows these figures, if it does so this year or next. *)
Arrival == (plan = "eta" /\ pick # <<>>) =>
  LET e == Got.eta  mo == pick[1]  d == pick[2]  h == pick[3]  mi == pick[4]
      given == mo > 0 /\ d > 0 /\ h < 24 /\ mi < 60
      this == Moment(today[1], mo, d, h, mi, 0)  next == Moment(today[1] + 1, mo, d, h, mi, 0)
  IN /\ (mo = 0 /\ d = 0 /\ h = 24 /\ mi = 60) => e = <<>>
     /\ e # <<>> => IsMoment(e[1]) /\ NotAfter(today, e[1]) /\ e[1][1] <= today[1] + 1
     /\ given => /\ (e # <<>> => SubSeq(e[1], 2, 6) = <<mo, d, h, mi, 0>>)
                 /\ (e = <<>> <=> next = <<>> /\ (this = <<>> \/ ~NotAfter(today, this[1])))
                 /\ (e # <<>> /\ e[1][1] = today[1] + 1 /\ this # <<>> => ~NotAfter(today, this[1]))
     /\ (mo > 12 \/ h > 24 \/ (h < 24 /\ mi > 60)) => e = <<>>
BaseClock == (plan = "base" /\ pick # <<>>) =>
  LET t == Got.time  x == <<pick[1], pick[2], pick[3], pick[4][1], pick[4][2], pick[4][3]>>
  IN t = IF IsMoment(x) THEN <<x>> ELSE <<>>
TimeOfDay == (plan \in {"time", "date"} /\ pick # <<>>) =>
  LET t == Got.time IN t # <<>> => IsMoment(t[1]) /\ (plan = "time" => SubSeq(t[1], 1, 3) = SubSeq(today, 1, 3))
Emit == IF Conf.print /\ pick # <<>> THEN PrintT("CLK " \o ToJson(today) \o " " \o ToJson(sentence)) ELSE TRUE
=============================================================================
