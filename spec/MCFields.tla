------------------------------ MODULE MCFields ------------------------------
(* Every field of every AIS message, every boundary of its range, on several  *)
(* backgrounds.  TLC checks that the decoding tables read a field back alone  *)
(* (no overlap, right width, right sign) and that exactly the values reserved *)
(* for it mean "not available"; the payloads are printed and handed to the    *)
(* real code.                                                                 *)
EXTENDS AisDecode, Json, IOUtils, TLC, FiniteSets

Conf    == JsonDeserialize(IOEnv.CONF)          \* [types, all: width, bgs, single, pairs, print]
Types   == { Conf.types[i] : i \in 1..Len(Conf.types) }
MaxAll  == Conf.all
NowDay  == <<2021, 3, 14, 15, 9, 26>>

(* A payload with field f set to v. *)
BitAt(sx, i) == (sx[i \div 6 + 1] \div (2^(5 - (i % 6)))) % 2
SetField(sx, f, v) ==
  [k \in 1..Len(sx) |->
    IF 6 * k <= f[1] \/ 6 * (k - 1) >= f[1] + f[2] THEN sx[k]
    ELSE FoldLeft(LAMBDA a, j :
           LET i == 6 * (k - 1) + j IN
           2 * a + (IF i < f[1] \/ i >= f[1] + f[2] THEN BitAt(sx, i)
                    ELSE (v \div (2^(f[1] + f[2] - 1 - i))) % 2), 0, <<0, 1, 2, 3, 4, 5>>)]

Patterns == << 0, 63, 21, 42 >>
Fixed(t, sx) ==
  LET a == SetField(sx, TypeField, TypeOf[t])
  IN IF t = "t24a" THEN SetField(a, Static24A.part, 0)
     ELSE IF t = "t24b" THEN SetField(a, Static24A.part, 1) ELSE a
Backgrounds == [t \in DOMAIN Layouts |-> [p \in 1..Len(Patterns) |-> Fixed(t, [i \in 1..Chars[t] |-> Patterns[p]])]]
Background(t, p) == Backgrounds[t][p]

Numbers(t) == { f \in DOMAIN Layouts[t] : Layouts[t][f][2] <= 30 /\ f # "part" }
Sentinel(t, f) ==
  LET n == IF t = "t27" /\ f \in {"lon", "lat", "sog", "cog"} THEN f \o "27" ELSE f
  IN IF n \in DOMAIN NotAvailable THEN {NotAvailable[n]} ELSE {}
Values(t, f) ==
  LET w == Layouts[t][f][2]  top == 2^w - 1 IN
  IF w <= MaxAll THEN 0..top
  ELSE { x \in { 0, 1, 2, top, top - 1, 2^(w - 1), 2^(w - 1) - 1, 2^(w - 1) + 1 }
             \cup { 2^i : i \in 0..(w - 1) } \cup { top - 2^i : i \in 0..(w - 1) }
             \cup UNION { {s - 1, s, s + 1} : s \in Sentinel(t, f) } : x >= 0 /\ x <= top }

Overlaps(f, g) == f[1] < g[1] + g[2] /\ g[1] < f[1] + f[2]

VARIABLES type, field, value, bg,
          other, otherValue,     \* a second field, "" when there is none
          message                \* that background with these fields set to these values
vars == <<type, field, value, bg, other, otherValue, message>>

(* The values of a field that mean something of their own. *)
Special(t, f) == LET w == Layouts[t][f][2] IN { 0, 2^w - 1, 2^(w - 1) } \cup Sentinel(t, f)
                   \cup (IF f \in {"lat", "lon"} THEN { Sentinel1 - 1 : Sentinel1 \in Sentinel(t, f) } ELSE {})
                   \cup (IF f \in {"ts", "etahour", "hour", "fix", "man", "part", "shiptype"} THEN { 1, 2^w - 2, 2^w - 3 } ELSE {})
Init == /\ type \in Types /\ bg = 0 /\ value = 0 /\ field \in Numbers(type) /\ message = <<>>
        /\ other = "" /\ otherValue = 0
One == /\ Conf.single
       /\ value' \in Values(type, field) /\ UNCHANGED <<other, otherValue>>
       /\ message' = SetField(Background(type, bg'), Layouts[type][field], value')
Two2 == /\ Conf.pairs
        /\ value' \in Special(type, field)
        /\ other' \in { g \in Numbers(type) \ {field} : ~Overlaps(Layouts[type][field], Layouts[type][g])
                                                    /\ Layouts[type][field][1] < Layouts[type][g][1] }
        /\ otherValue' \in Special(type, other')
        /\ message' = SetField(SetField(Background(type, bg'), Layouts[type][field], value'),
                              Layouts[type][other'], otherValue')
Next == /\ bg = 0
        /\ bg' \in { Conf.bgs[i] : i \in 1..Len(Conf.bgs) }
        /\ (One \/ Two2)
        /\ UNCHANGED <<type, field>>
Spec == Init /\ [][Next]_vars

Pad(m) == [i \in 1..LongestMessage |-> IF i <= Len(m) THEN m[i] ELSE 0]

(* The fields read back, alone. *)
ReadsBack == bg # 0 =>
  LET m == TLCEval(Pad(message))  b == TLCEval(Pad(Background(type, bg)))  L == Layouts[type] IN
  /\ U(m, L[field]) = value
  /\ other # "" => U(m, L[other]) = otherValue
  /\ \A g \in Numbers(type) \ {field, other} :
        ~Overlaps(L[field], L[g]) /\ (other = "" \/ ~Overlaps(L[other], L[g])) => U(m, L[g]) = U(b, L[g])
(* Fields are disjoint, except that the mothership shares the bits of the dimensions. *)
Disjoint == bg = 0 => \A f, g \in DOMAIN Layouts[type] :
              (f # g /\ Overlaps(Layouts[type][f], Layouts[type][g])) =>
                 (f = "moth" \/ g = "moth") /\ {f, g} \subseteq {"moth", "bow", "stern", "port", "stbd"}
InsideMessage == bg = 0 => \A f \in DOMAIN Layouts[type] :
                   (f # "ext" => Layouts[type][f][1] + Layouts[type][f][2] <= 6 * Chars[type])

(* Exactly the reserved value is "not available". *)
Decoded(m) ==
  CASE type \in {"t1", "t2", "t3"} -> Decode123(m, FALSE, "Other") [] type = "t4" -> Decode4(m, FALSE, "Other")
    [] type = "t5" -> Decode5(m, FALSE, NowDay) [] type = "t6" -> Decode6(m, FALSE, "Other")
    [] type = "t9" -> Decode9(m, FALSE, "Other") [] type = "t10" -> Decode10(m, FALSE, "Other")
    [] type = "t18" -> Decode18(m, FALSE, "Other") [] type = "t21" -> Decode21(m, FALSE, "Other")
    [] type = "t24a" -> Decode24A(m, FALSE) [] type = "t24b" -> Decode24B(m, FALSE)
    [] type = "t27" -> Decode27(m, FALSE, "Other")
Plain == {"lon", "lat", "sog", "cog", "hdg", "alt"}
MeaningOk == bg # 0 =>
  LET d == Decoded(TLCEval(Pad(message))) IN
  /\ field = "mmsi" => d.mmsi = value
  /\ field \in Plain =>
       /\ (d[field] = <<>>) <=> (value \in Sentinel(type, field))
       /\ (d[field] # <<>> /\ field \in {"lon", "lat"}) =>
             LET w == Layouts[type][field][2]  signed == IF value >= 2^(w - 1) THEN value - 2^w ELSE value
             IN d[field][1] = signed * (IF type = "t27" THEN 1000 ELSE 1)
  /\ field = "rot" => LET s == IF value > 127 THEN value - 256 ELSE value IN
       /\ (d.rot = <<>>) <=> (s \in {-128, -127, 127})
       /\ (d.rot # <<>> => d.rot[1] = s)
       /\ (d.rotd = <<>>) <=> (s = -128)

Emit == IF bg # 0 /\ Conf.print THEN PrintT("MSG " \o type \o " " \o field \o " " \o ToJson(message)) ELSE TRUE
=============================================================================
