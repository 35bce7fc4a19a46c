------------------------------- MODULE MCGnss -------------------------------
(* GNSS sentences with every field in turn (or every two fields) replaced by  *)
(* well-formed, missing and malformed text.  TLC checks which of them must be *)
(* refused and prints the sentences for the real code.                        *)
EXTENDS NmeaParser, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CONF)     \* [kinds |-> <<...>>, pairs |-> BOOLEAN, print |-> BOOLEAN]
NowDay == <<2024, 2, 29, 23, 59, 58>>

(* Alternatives per class of field: well formed, then malformed. "" is missing. *)
Good ==
  [ time |-> << "000000", "235959", "120000.00", "123519.999", "000001", "090807" >>,
    date |-> << "010100", "311299", "290224", "191120", "280223", "300424" >>,
    lat  |-> << "0000.000", "8959.9999", "9000.0", "4916.45", "4807.038", "0000.00001", "4916.450000",
                "0100.0", "4959.999999", "0000.1", "4807.0123456789", "0000.000000001" >>,
    ns   |-> << "N", "S" >>,
    lon  |-> << "00000.000", "17959.9999", "18000.0", "12311.12", "01131.000", "00000.00001",
                "00100.0", "09959.999999", "10000.5", "12311.9999999996", "00000.123456789" >>,
    ew   |-> << "E", "W" >>,
    u8   |-> << "0", "1", "9", "00", "012", "255" >>,
    u16  |-> << "0", "1", "0000", "4095", "65535", "120" >>,
    qual |-> << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "255" >>,
    dec  |-> << "0", "0.0", "1", "545.4", "000.5", "-12.25", "+7.5", ".5", "5.", "99999.999999",
                "0.000001", "-0.5", "359.99", "12.123456789", "0.9999999996" >>,
    stat |-> << "A", "V" >>, mode |-> << "A", "M" >>, fixm |-> << "1", "2", "3" >>,
    faa  |-> << "A", "D", "E", "N", "S" >>, unit |-> << "M", "x", "K" >>,
    vdec |-> << "0", "20.3", "020.3", "1.5" >>,
    ldec |-> << "0", "0.0", "1", "54.7", "359.99", "005.5", "-1.5", "102.125" >>,
    lu8  |-> << "0", "01", "255", "90" >>, lu16 |-> << "0", "359", "65535", "083", "256" >> ]
Malformed ==
  [ time |-> << "240000", "126000", "123560", "123", "abcdef", "12-519", "1a3519", "999999" >>,
    date |-> << "320124", "000124", "011324", "010024", "290223", "310424", "0101", "ab0124", "300224" >>,
    lat  |-> << "4916", "916.45", "4916.", "49164.5", "-4916.45", "abc", "49a6.45", " 4916.45", "4916x45", "." >>,
    ns   |-> <<>>,
    lon  |-> << "12311", "2311.12", "12311.", "123114.5", "-12311.12", "abc", "12a11.12", " 12311.12", "." >>,
    ew   |-> <<>>,
    u8   |-> << "256", "-1", "1.5", "x", "1x", " 1", "999999999999" >>,
    u16  |-> << "65536", "-1", "1.5", "x", " 1", "99999999999" >>,
    qual |-> << "256", "-1", "x", "1.0" >>,
    dec  |-> << "x", "1x", "--1", ".", "1.2.3", " 1", "1 ", "-", "0x10" >>,
    stat |-> << "X", "a", "AV", "1" >>, mode |-> << "X", "a", "AM", "1" >>, fixm |-> << "0", "4", "A", "11" >>,
    faa  |-> << "X", "a", "AD", "1" >>, unit |-> <<>>,
    vdec |-> << "x", "--1", "." >>,
    ldec |-> << "x", "1x", "--1", ".", "1.2.3", " 1" >>,
    lu8  |-> << "256", "-1", "x", "1.5" >>, lu16 |-> << "65536", "-1", "x", "1.5" >> ]
(* Classes in which malformed text makes the whole sentence invalid; in the others only *)
(* the value is lost.                                                                   *)
Strict == {"lat", "lon", "u8", "u16", "qual", "dec", "stat", "mode", "fixm", "vdec"}

Shape ==
  [ GGA |-> << <<"time","123519">>, <<"lat","4807.038">>, <<"ns","N">>, <<"lon","01131.000">>, <<"ew","E">>,
               <<"qual","1">>, <<"u8","08">>, <<"dec","0.9">>, <<"dec","545.4">>, <<"unit","M">>,
               <<"dec","46.9">>, <<"unit","M">>, <<"dec","3.5">>, <<"u16","0120">> >>,
    RMC |-> << <<"time","225446">>, <<"stat","A">>, <<"lat","4916.45">>, <<"ns","S">>, <<"lon","12311.12">>,
               <<"ew","W">>, <<"dec","000.5">>, <<"dec","054.7">>, <<"date","191120">>, <<"vdec","020.3">>,
               <<"ew","E">> >>,
    GSA |-> << <<"mode","A">>, <<"fixm","3">>, <<"u8","19">>, <<"u8","28">>, <<"u8","14">>, <<"u8","18">>,
               <<"u8","27">>, <<"u8","22">>, <<"u8","31">>, <<"u8","39">>, <<"u8","40">>, <<"u8","41">>,
               <<"u8","42">>, <<"u8","43">>, <<"dec","1.7">>, <<"dec","1.0">>, <<"dec","1.3">> >>,
    GSV |-> << <<"one","1">>, <<"one","1">>, <<"unit","04">>,
               <<"lu8","01">>, <<"lu8","40">>, <<"lu16","083">>, <<"lu8","46">>,
               <<"lu8","02">>, <<"lu8","17">>, <<"lu16","308">>, <<"lu8","41">>,
               <<"lu8","12">>, <<"lu8","07">>, <<"lu16","344">>, <<"lu8","39">>,
               <<"lu8","14">>, <<"lu8","22">>, <<"lu16","228">>, <<"lu8","45">> >>,
    VTG |-> << <<"ldec","054.7">>, <<"unit","T">>, <<"ldec","034.4">>, <<"unit","M">>, <<"ldec","005.5">>,
               <<"unit","N">>, <<"ldec","010.2">>, <<"unit","K">>, <<"faa","A">> >>,
    GLL |-> << <<"lat","4916.45">>, <<"ns","N">>, <<"lon","12311.12">>, <<"ew","W">>, <<"time","225444">>,
               <<"stat6","A">>, <<"faa","D">> >> ]
Alts(c) == IF c = "one" THEN <<>>
           ELSE IF c = "stat6" THEN << "A", "V", "", "X", "AV" >>
           ELSE Good[c] \o <<"">> \o Malformed[c]

VARIABLES format, at1, alt1, at2, alt2, kept,   \* field at1 gets alternative alt1, field at2 alternative alt2; kept: fields kept
          sentence                      \* the sentence
vars == <<format, at1, alt1, at2, alt2, kept, sentence>>
Kinds == { Conf.kinds[x] : x \in 1..Len(Conf.kinds) }

Text1(n) == LET sh == Shape[format][n] IN
            IF n = at1 /\ alt1 > 0 THEN Alts(sh[1])[alt1] ELSE IF n = at2 /\ alt2 > 0 THEN Alts(sh[1])[alt2] ELSE sh[2]
Talking == "$GP" \o format
Sentence == FoldLeft(LAMBDA acc, n : acc \o <<Comma>> \o Str(Text1(n)), Str(Talking), [n \in 1..kept |-> n])

Init == /\ format \in Kinds /\ at1 \in 1..Len(Shape[format]) /\ alt1 = 0 /\ at2 = 0 /\ alt2 = 0
        /\ kept = Len(Shape[format]) /\ sentence = Sentence
SetOne   == alt1 = 0 /\ kept = Len(Shape[format]) /\ alt1' \in 1..Len(Alts(Shape[format][at1][1])) /\ UNCHANGED <<format, at1, at2, alt2, kept>>
SetTwo   == /\ Conf.pairs /\ alt1 > 0 /\ at2 = 0 /\ at1 < Len(Shape[format]) /\ at2' \in (at1 + 1)..Len(Shape[format])
            /\ alt2' \in 1..Len(Alts(Shape[format][at2'][1])) /\ UNCHANGED <<format, at1, alt1, kept>>
CutShort == alt1 = 0 /\ at1 = 1 /\ kept = Len(Shape[format]) /\ kept' \in 0..(kept - 1) /\ UNCHANGED <<format, at1, alt1, at2, alt2>>
Next == (SetOne \/ SetTwo \/ CutShort) /\ sentence' = Sentence'
Spec == Init /\ [][Next]_vars

MalformedAt(n) == n <= kept /\ LET c == Shape[format][n][1] IN
                  c \in Strict /\ Text1(n) # "" /\ \E x \in 1..Len(Malformed[c]) : Malformed[c][x] = Text1(n)
(* A magnetic variation needs its side. *)
VariationAlone == format = "RMC" /\ kept >= 10 /\ Text1(10) # "" /\ (kept < 11 \/ ~(Text1(11) \in {"E", "W"}))

Kind3 == [GGA |-> "Gga", RMC |-> "Rmc", GSA |-> "Gsa", GSV |-> "Gsv", VTG |-> "Vtg", GLL |-> "Gll"]
Result == Step(Empty, NowDay, sentence).r
Refused ==
  LET r == TLCEval(Result)
      bad == (\E n \in 1..kept : MalformedAt(n)) \/ VariationAlone
      early == kept = 0 \/ (format = "GSV" /\ kept < 2)
  IN IF early THEN r.k = "Err"
     ELSE IF bad THEN r = Invalid ELSE r.k = Kind3[format]
Emit == IF Conf.print THEN PrintT("SEN " \o ToJson(sentence)) ELSE TRUE
=============================================================================
