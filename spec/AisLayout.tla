----------------------------- MODULE AisLayout -----------------------------
(* Where ITU-R M.1371 puts each field of the supported AIS messages:          *)
(* <<first bit, number of bits>>.  Both the decoder of the specification and  *)
(* the generator of test messages are driven by these tables.                 *)
EXTENDS Integers

TypeField == <<0, 6>>
MmsiField == <<8, 30>>

PosA ==     \* types 1, 2, 3: class A position report
  [ mmsi |-> <<8,30>>, nav |-> <<38,4>>, rot |-> <<42,8>>, sog |-> <<50,10>>, acc |-> <<60,1>>,
    lon |-> <<61,28>>, lat |-> <<89,27>>, cog |-> <<116,12>>, hdg |-> <<128,9>>, ts |-> <<137,6>>,
    man |-> <<143,2>>, raim |-> <<148,1>>, radio |-> <<149,19>> ]

Base4 ==    \* type 4: base station report
  [ mmsi |-> <<8,30>>, year |-> <<38,14>>, month |-> <<52,4>>, day |-> <<56,5>>, hour |-> <<61,5>>,
    minute |-> <<66,6>>, second |-> <<72,6>>, acc |-> <<78,1>>, lon |-> <<79,28>>, lat |-> <<107,27>>,
    fix |-> <<134,4>>, raim |-> <<148,1>>, radio |-> <<149,19>> ]

Static5 ==  \* type 5: class A static and voyage data
  [ mmsi |-> <<8,30>>, ver |-> <<38,2>>, imo |-> <<40,30>>, call |-> <<70,42>>, name |-> <<112,120>>,
    shiptype |-> <<232,8>>, bow |-> <<240,9>>, stern |-> <<249,9>>, port |-> <<258,6>>,
    stbd |-> <<264,6>>, fix |-> <<270,4>>, etamonth |-> <<274,4>>, etaday |-> <<278,5>>,
    etahour |-> <<283,5>>, etaminute |-> <<288,6>>, draught |-> <<294,8>>, dest |-> <<302,120>> ]

Binary6 ==  \* type 6: addressed binary message
  [ mmsi |-> <<8,30>>, seq |-> <<38,2>>, dmmsi |-> <<40,30>>, retr |-> <<70,1>>, dac |-> <<72,10>>,
    fid |-> <<82,6>> ]

Sar9 ==     \* type 9: SAR aircraft position report
  [ mmsi |-> <<8,30>>, alt |-> <<38,12>>, sog |-> <<50,10>>, acc |-> <<60,1>>, lon |-> <<61,28>>,
    lat |-> <<89,27>>, cog |-> <<116,12>>, ts |-> <<128,6>>, regional |-> <<134,8>>, dte |-> <<142,1>>,
    assigned |-> <<146,1>>, raim |-> <<147,1>>, radio |-> <<148,20>> ]

Inquiry10 == \* type 10: UTC/date inquiry
  [ mmsi |-> <<8,30>>, dmmsi |-> <<40,30>> ]

PosB18 ==   \* type 18: class B position report
  [ mmsi |-> <<8,30>>, sog |-> <<46,10>>, acc |-> <<56,1>>, lon |-> <<57,28>>, lat |-> <<85,27>>,
    cog |-> <<112,12>>, hdg |-> <<124,9>>, ts |-> <<133,6>>, unit |-> <<141,1>>, display |-> <<142,1>>,
    dsc |-> <<143,1>>, band |-> <<144,1>>, msg22 |-> <<145,1>>, mode |-> <<146,1>>, raim |-> <<147,1>>,
    css |-> <<148,1>>, radio |-> <<149,19>> ]

Aton21 ==   \* type 21: aid-to-navigation report
  [ mmsi |-> <<8,30>>, aid |-> <<38,5>>, name |-> <<43,120>>, acc |-> <<163,1>>, lon |-> <<164,28>>,
    lat |-> <<192,27>>, bow |-> <<219,9>>, stern |-> <<228,9>>, port |-> <<237,6>>, stbd |-> <<243,6>>,
    fix |-> <<249,4>>, ts |-> <<253,6>>, off |-> <<259,1>>, regional |-> <<260,8>>, raim |-> <<268,1>>,
    virtual |-> <<269,1>>, assigned |-> <<270,1>>, ext |-> <<272,84>> ]

Static24A == \* type 24 part A
  [ mmsi |-> <<8,30>>, part |-> <<38,2>>, name |-> <<40,120>> ]

Static24B == \* type 24 part B
  [ mmsi |-> <<8,30>>, part |-> <<38,2>>, shiptype |-> <<40,8>>, vend |-> <<48,18>>, model |-> <<66,4>>,
    ser |-> <<70,20>>, call |-> <<90,42>>, bow |-> <<132,9>>, stern |-> <<141,9>>, port |-> <<150,6>>,
    stbd |-> <<156,6>>, moth |-> <<132,30>> ]

Long27 ==   \* type 27: long-range position report
  [ mmsi |-> <<8,30>>, acc |-> <<38,1>>, raim |-> <<39,1>>, nav |-> <<40,4>>, lon |-> <<44,18>>,
    lat |-> <<62,17>>, sog |-> <<79,6>>, cog |-> <<85,9>>, gnss |-> <<94,1>> ]

(* Raw values that mean "not available", for the generator. *)
NotAvailable ==
  [ lon |-> 108600000, lat |-> 54600000, lon27 |-> 108600, lat27 |-> 54600, sog |-> 1023, sog27 |-> 63,
    cog |-> 3600, cog27 |-> 511, hdg |-> 511, alt |-> 4095, rot |-> 128, ts |-> 60,
    month |-> 0, day |-> 0, hour |-> 24, minute |-> 60, year |-> 0, second |-> 60,
    etamonth |-> 0, etaday |-> 0, etahour |-> 24, etaminute |-> 60 ]

Layouts ==
  [ t1 |-> PosA, t2 |-> PosA, t3 |-> PosA, t4 |-> Base4, t5 |-> Static5, t6 |-> Binary6, t9 |-> Sar9,
    t10 |-> Inquiry10, t18 |-> PosB18, t21 |-> Aton21, t24a |-> Static24A, t24b |-> Static24B,
    t27 |-> Long27 ]
(* The message type, in the first six bits. *)
TypeOf == [ t1 |-> 1, t2 |-> 2, t3 |-> 3, t4 |-> 4, t5 |-> 5, t6 |-> 6, t9 |-> 9, t10 |-> 10, t18 |-> 18,
            t21 |-> 21, t24a |-> 24, t24b |-> 24, t27 |-> 27 ]
(* Nominal number of six-bit characters of a message. *)
Chars == [ t1 |-> 28, t2 |-> 28, t3 |-> 28, t4 |-> 28, t5 |-> 71, t6 |-> 20, t9 |-> 28, t10 |-> 12,
           t18 |-> 28, t21 |-> 60, t24a |-> 28, t24b |-> 28, t27 |-> 16 ]
=============================================================================
