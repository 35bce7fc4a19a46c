------------------------------- MODULE MCLaws -------------------------------
(* Laws of the vocabulary the specification is written in, checked exhaustively *)
(* over their small domains, and the tables the test generators work from.      *)
EXTENDS Scope, Names, Json, IOUtils

(* The armor is a bijection between 64 values and 64 characters. *)
ASSUME \A v \in 0..63 : IsArmor(Armor(v)) /\ Sextet(Armor(v)) = v
ASSUME Cardinality({ c \in 0..255 : IsArmor(c) }) = 64 /\ \A c \in 0..255 : IsArmor(c) => Armor(Sextet(c)) = c

(* A field's value is the binary number its bits spell, wherever it lies. *)
Bits(sx, f) == FoldLeft(LAMBDA acc, i : 2 * acc + ((sx[(f[1] + i) \div 6 + 1] \div (2^(5 - ((f[1] + i) % 6)))) % 2),
                        0, [i \in 1..f[2] |-> i - 1])
Pats == << [i \in 1..12 |-> 63], [i \in 1..12 |-> 21], [i \in 1..12 |-> (7 * i * i + 13) % 64], [i \in 1..12 |-> (i * 29) % 64] >>
ASSUME \A p \in 1..4, at \in 0..36, w \in 1..30 : U(Pats[p], <<at, w>>) = Bits(Pats[p], <<at, w>>)
ASSUME \A p \in 1..4, at \in 0..36, w \in 2..30 :
         LET s == S(Pats[p], <<at, w>>) IN s >= 0 - 2^(w - 1) /\ s < 2^(w - 1)
            /\ (s - U(Pats[p], <<at, w>>)) \in (IF s >= 0 THEN {0} ELSE {s - U(Pats[p], <<at, w>>)})

(* Tables are total. *)
ASSUME \A v \in 0..255 : /\ ShipType(v) # "" /\ CargoType(v) # "" /\ FixType(v) # "" /\ NavStatus(v) # "" /\ Quality(v) # ""
ASSUME \A v \in 0..31 : AidType(v) # ""
ASSUME Cardinality({ AidType(v) : v \in 0..31 }) = 32 /\ Cardinality({ NavStatus(v) : v \in 0..15 }) = 16
ASSUME Cardinality({ Quality(v) : v \in 0..8 }) = 9 /\ Cardinality({ FixType(v) : v \in 0..8 }) = 9

(* What prints: every value the tables can call for has a name, once, and the words that *)
(* are asked for tell any two meanings apart.                                            *)
Named(t) == { NameTable[t][i][1] : i \in 1..Len(NameTable[t]) }
ASSUME \A t \in DOMAIN NameTable : Cardinality(Named(t)) = Len(NameTable[t])
ASSUME \A v \in 0..255 : /\ ShipType(v) \in Named("ship") /\ CargoType(v) \in Named("cargo") /\ FixType(v) \in Named("fix")
                         /\ Quality(v) \in Named("quality")
ASSUME { AidType(v) : v \in 0..31 } = Named("aid") /\ { FixType(v) : v \in 0..255 } = Named("fix")
ASSUME { ShipType(v) : v \in 0..255 } = Named("ship") /\ { CargoType(v) : v \in 0..255 } = Named("cargo")
ASSUME { Quality(v) : v \in 0..255 } = Named("quality")
ASSUME { Faa(<<c>>)[1] : c \in { c \in 0..127 : Faa(<<c>>) # <<>> } } = Named("faa")
ASSUME \A t \in DOMAIN NameTable, i, j \in 1..40 :
         (i < j /\ j <= Len(NameTable[t]) /\ NameTable[t][i][2] = NameTable[t][j][2]) => NameTable[t][i][2] \in NoMeaning
ASSUME WordsOf(Str("GPS/Loran-C, (x)")) = { Str("gps"), Str("loran"), Str("c"), Str("x") } /\ WordsOf(<<>>) = {}
ASSUME Has(Str("inoperative"), <<"inoperative">>) /\ ~Has(Str("inoperative"), <<"operative">>)

(* Country codes are ISO 3166 style; only nine-digit ship station numbers have one. *)
Upper == { SubSeq(Printable, i, i) : i \in 34..59 }
ASSUME \A m \in DOMAIN MidTable : m >= 201 /\ m <= 775 /\ Len(MidTable[m]) = 2
          /\ SubSeq(MidTable[m], 1, 1) \in Upper /\ SubSeq(MidTable[m], 2, 2) \in Upper
ASSUME \A m \in 0..999 : Country(m * 1000000) = (IF m \in DOMAIN MidTable THEN <<MidTable[m]>> ELSE <<>>)
ASSUME \A m \in {0, 1, 99999, 970123456, 111222333, 2320000, 1000000000, 1073741823} : Country(m) = <<>>

(* Numbers. *)
ASSUME \A n \in 0..255 : UInt(Str(ToString(n)), 255) = <<n>> /\ MsgId(Str(ToString(n))) = <<Str(ToString(n))>>
ASSUME UInt(Str("256"), 255) = <<>> /\ UInt(<<>>, 255) = <<>> /\ UInt(Str("007"), 255) = <<7>>
ASSUME MsgId(MaxU64) = <<MaxU64>> /\ MsgId(Str("18446744073709551616")) = <<>> /\ MsgId(Str("007")) = <<Str("7")>>
ASSUME Dec(Str("-12.25")) = << <<-1, 12, 250000000>> >> /\ Dec(Str("0.9999999")) = << <<1, 0, 999999900>> >> /\ Dec(Str("0.9999999996")) = << <<1, 1, 0>> >> /\ Dec(Str("-0.0")) = << <<1, 0, 0>> >>
ASSUME \A n \in 0..255 : LET h == Hex2(n) IN \A m \in 0..255 : Hex2(m) = h => m = n

(* The calendar: 400 years have 97 leap days. *)
ASSUME Cardinality({ y \in 2000..2399 : Leap(y) }) = 97
ASSUME \A y \in {1900, 2000, 2023, 2024} : FoldLeft(LAMBDA acc, m : acc + DaysIn(y, m), 0, [m \in 1..12 |-> m])
                                            = IF Leap(y) THEN 366 ELSE 365

(* Comparison of numbers tolerates a billionth and no more, in large numbers a millionth. *)
ASSUME NumEq(<<1, 1, 0>>, <<1, 0, 999999999>>) /\ ~NumEq(<<1, 1, 0>>, <<1, 0, 999999998>>)
       /\ NumEq(<<1, 100000, 0>>, <<1, 99999, 999999999>>) /\ NumEq(<<1, 100000, 5>>, <<1, 100000, 900>>) /\ NumEq(<<1, 0, 0>>, <<-1, 0, 1>>) /\ ~NumEq(<<1, 0, 2>>, <<1, 0, 0>>)
ASSUME ~NumEq(<<1, 5, 0>>, <<-1, 5, 0>>) /\ ~NumEq(<<1, 5, 0>>, <<1, 6, 0>>) /\ NumEq(<<-1, 5, 3>>, <<-1, 5, 4>>)

ASSUME JsonSerialize(IOEnv.OUT, << [ layouts |-> Layouts, chars |-> Chars, types |-> TypeOf, na |-> NotAvailable,
          mids |-> SetToSeq(DOMAIN MidTable), longest |-> LongestMessage ] >>)
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
