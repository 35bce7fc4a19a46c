------------------------------- MODULE MCFrame -------------------------------
(* The envelope of a sentence: every checksum text of two characters, every   *)
(* single-character corruption, every sentence type built from interesting    *)
(* parts, every character in a payload, every truncation of every message.    *)
(* TLC checks what each must lead to and prints the sentences.                *)
EXTENDS NmeaParser, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CONF)    \* [plans |-> <<...>>, bases |-> <<sentences>>, print |-> BOOLEAN]
Today == <<2024, 2, 29, 23, 59, 58>>
Plans == { Conf.plans[i] : i \in 1..Len(Conf.plans) }

VARIABLES plan, pick, sentence
vars == <<plan, pick, sentence>>

(* Bodies without an asterisk. *)
Bases == [i \in 1..Len(Conf.bases) |-> TLCEval(Body(Conf.bases[i]))]

SumChars == Str("0123456789ABCDEFabcdefGZ -+xX*,")
Starts  == << "$", "!", "#", "", "\\" >>
Talkers   == << "GP", "GL", "GA", "GN", "BD", "GI", "QZ", "GB", "XX", "AB", "AD", "AI", "AN", "AR", "AS",
                "AT", "AX", "SA", "BS", "ab", "gp", "P", "", "A1", "  " >>
Formatters == << "GGA", "RMC", "GSA", "GSV", "VTG", "GLL", "VDM", "VDO", "ALM", "VDN", "DBS", "gga", "vdm", "GG",
                 "GGAA", "", "GNS", "VDMM", "HDT" >>
Rests == << "", ",", ",1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0",
            ",123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,", ",A,3,04,05,,09,12,,,24,,,,,2.5,1.3,2.1" >>

(* A sentence with one more character: before its start, after it, inside, at its end. *)
Inserted == (1..300) \cup {1635, 8364, 65377, 65536, 128674}
Inserting(b, at, c) == LET n == <<0, 1, Len(b) \div 2, Len(b)>>[at] IN SubSeq(b, 1, n) \o <<c>> \o SubSeq(b, n + 1, Len(b))
(* Sentence formatters in use. *)
Spoken == << "AAM", "ABK", "ACA", "ACK", "ACS", "AIR", "ALM", "ALR", "APA", "APB", "BEC", "BOD", "BWC", "BWR", "BWW",
             "CUR", "DBK", "DBS", "DBT", "DCN", "DPT", "DSC", "DSE", "DTM", "FSI", "GBS", "GDA", "GGA", "GLC", "GLL",
             "GMP", "GNS", "GRS", "GSA", "GST", "GSV", "GTD", "GXA", "HDG", "HDM", "HDT", "HSC", "HTC", "ITS", "LCD",
             "LRF", "MDA", "MSK", "MSS", "MTA", "MTW", "MWD", "MWV", "OLN", "OSD", "RMA", "RMB", "RMC", "ROT", "RPM",
             "RSA", "RSD", "RTE", "SFI", "SSD", "STN", "THS", "TLB", "TLL", "TRF", "TTD", "TTM", "TXT", "VBW", "VDM",
             "VDO", "VDR", "VHW", "VLW", "VPW", "VSD", "VTG", "VWR", "WCV", "WNC", "WPL", "XDR", "XTC", "XTE", "XTR",
             "ZDA", "ZDL", "ZFO", "ZTG", "VDA", "VDN", "VMD", "GAG", "GVS", "RCM", "GTV", "LLG" >>

PayloadOf(t, p) == TLCEval([i \in 1..Chars[t] |->
                     LET v == IF p = 1 THEN 0 ELSE IF p = 2 THEN 63 ELSE IF i % 2 = 1 THEN 21 ELSE 42
                     IN IF i = 1 THEN Armor(TypeOf[t])
                        ELSE IF t = "t24a" /\ i = 7 THEN Armor((v \div 16) * 16 + (v % 4))
                        ELSE IF t = "t24b" /\ i = 7 THEN Armor((v \div 16) * 16 + 4 + (v % 4)) ELSE Armor(v)])
Head1 == Str("!AIVDM,1,1,,A,")
Tail1 == Str(",0")
Carry(p) == Head1 \o p \o Tail1
ManyTypes == {"t1", "t4", "t5", "t6", "t9", "t10", "t18", "t21", "t24a", "t24b", "t27"}

Picks ==
  CASE plan = "sum"   -> (1..Len(Bases)) \X (1..Len(SumChars)) \X (1..Len(SumChars))
    [] plan = "flip"  -> UNION { {i} \X (1..Len(Bases[i])) \X {1, 2, 32} : i \in 1..Len(Bases) }
    [] plan = "char"  -> (1..Len(Bases)) \X (1..4) \X Inserted \X {0, 1}
    [] plan = "pair"  -> (1..26) \X (1..26) \X (1..2)
    [] plan = "format" -> (1..Len(Spoken)) \X (1..3) \X (3..Len(Rests))
    [] plan = "type"  -> (1..Len(Starts)) \X (1..Len(Talkers)) \X (1..Len(Formatters)) \X (1..Len(Rests))
    [] plan = "armor" -> {1, 2, 14, 27, 28} \X (1..260)
    [] plan = "cut"   -> UNION { {t} \X {1, 2, 3} \X (0..Chars[t]) : t \in ManyTypes }

Made(x) ==
  CASE plan = "sum"   -> Bases[x[1]] \o <<Star, SumChars[x[2]], SumChars[x[3]]>>
    [] plan = "flip"  -> LET b == Bases[x[1]] IN
                         [b EXCEPT ![x[2]] = @ ^^ x[3]] \o <<Star>> \o Hex2(XorSum(b))
    [] plan = "char"  -> LET b == Bases[x[1]]
                             t == Inserting(b, x[2], x[3])
                         IN t \o <<Star>> \o Hex2(XorSum(IF x[4] = 0 THEN t ELSE b))
    [] plan = "pair"  -> IF x[3] = 1 THEN <<36, 64 + x[1], 64 + x[2]>> \o Str("VTG,1,T,2,M,3,N,4,K,A")
                         ELSE <<33, 64 + x[1], 64 + x[2]>> \o Str("VDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0")
    [] plan = "format" -> Str(<<"$GP", "$GN", "!AI">>[x[2]]) \o Str(Spoken[x[1]]) \o Str(Rests[x[3]])
    [] plan = "type"  -> Str(Starts[x[1]]) \o Str(Talkers[x[2]]) \o Str(Formatters[x[3]]) \o Str(Rests[x[4]])
    [] plan = "armor" -> Carry([PayloadOf("t1", 3) EXCEPT ![x[1]] = x[2]])
    [] plan = "cut"   -> Carry(SubSeq(PayloadOf(x[1], x[2]), 1, x[3]))

Init == plan \in Plans /\ pick = <<>> /\ sentence = <<>>
Next == pick = <<>> /\ \E x \in Picks : pick' = x /\ sentence' = Made(x) /\ UNCHANGED plan
Spec == Init /\ [][Next]_vars

Out1 == Step(Empty, Today, sentence)
Chosen(p) == plan = p /\ pick # <<>>
(* Only the right two characters pass, whatever the sentence is. *)
OnlyTheSum == Chosen("sum") =>
  LET b == Bases[pick[1]]  want == Hex2(XorSum(b))  c1 == SumChars[pick[2]]  c2 == SumChars[pick[3]]
      usual == c1 # Star /\ c2 # Star
  IN /\ (usual /\ <<c1, c2>> # want) => Out1.r = Err("Corrupted") /\ Out1.st = Empty
     /\ (usual /\ <<c1, c2>> = want) => Out1.r = Step(Empty, Today, b).r
(* One changed character is noticed wherever it is, except in the very first, *)
(* which the checksum does not cover.                                        *)
NoticesOneChange == Chosen("flip") => (pick[2] # 1 /\ sentence[pick[2]] # Star => Out1.r = Err("Corrupted"))
(* The checksum covers every character but the first. *)
CoversAll == Chosen("char") =>
  LET b == Bases[pick[1]]  c == pick[3]  t == Inserting(b, pick[2], c)  same == XorSum(t) = XorSum(b) IN
  c # Star => IF pick[4] = 0 \/ same THEN Out1.r = Step(Empty, Today, t).r ELSE Out1.r = Err("Corrupted")
(* Every pair of letters is a talker, and only the source or station depends on it. *)
AnyTalker == Chosen("pair") =>
  LET tk == SubSeq(sentence, 2, 3)  same == Step(Empty, Today, <<sentence[1]>> \o Str("XX") \o SubSeq(sentence, 4, Len(sentence))).r IN
  IF pick[3] = 1 THEN Out1.r = [same EXCEPT !.src = NavSystem(tk)] ELSE Out1.r = [same EXCEPT !.st = Station(tk)]
Decoded == {"GGA", "RMC", "GSA", "GSV", "VTG", "GLL"}
OnlyDecoded == Chosen("format") =>
  LET f == Spoken[pick[1]] IN
  (IF pick[2] = 3 THEN f \notin {"VDM", "VDO"} ELSE f \notin Decoded) => Out1.r = Err("Unsupported")
(* What the sentence type decides: the kind of result. *)
TypeDecides == Chosen("type") =>
  LET r == Out1.r  pre == Starts[pick[1]]  tk == Talkers[pick[2]]  f == Formatters[pick[3]]
      ais == pre = "!" /\ Len(tk) = 2 /\ f \in {"VDM", "VDO"}
      gnss == pre = "$" /\ Len(tk) = 2 /\ f \in {"GGA", "RMC", "GSA", "GSV", "VTG", "GLL"}
      odd == Len(pre) + Len(tk) + Len(f) = 6 /\ (Len(pre) # 1 \/ Len(tk) # 2)     \* shifted parts
  IN IF Rests[pick[4]] = "" THEN r.k = "Err"
     ELSE IF ~odd /\ ~ais /\ ~gnss THEN r = Err("Unsupported")
     ELSE IF ais \/ gnss THEN r # Err("Unsupported") \/ ais ELSE TRUE
(* A payload with a foreign character is refused. *)
Foreign == Chosen("armor") =>
  LET c == pick[2]  in == (c >= 48 /\ c <= 87) \/ (c >= 96 /\ c <= 119) IN
  (~in /\ c # Star /\ c # Comma) => Out1.r.k = "Err" /\ Out1.st = Empty
(* A short payload means what it means with zeros to its end. *)
ZeroPadded == Chosen("cut") =>
  LET whole == PayloadOf(pick[1], pick[2])
      padded == SubSeq(whole, 1, pick[3]) \o [i \in 1..(Len(whole) - pick[3]) |-> 48]
  IN pick[3] > 0 => Out1.r = Step(Empty, Today, Carry(padded)).r

Emit == IF Conf.print /\ pick # <<>> THEN PrintT("SEN " \o ToJson(sentence)) ELSE TRUE
=============================================================================
