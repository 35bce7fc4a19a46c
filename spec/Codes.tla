------------------------------- MODULE Codes -------------------------------
(* Text is a sequence of character codes (naturals).  Everything a sentence  *)
(* parser does with text before it knows what the text means: splitting at   *)
(* commas, reading unsigned integers and decimal numbers, the NMEA checksum. *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

(* Printable ASCII, to write character sequences readably: Str("GGA"). *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in { SubSeq(Printable, i, i) : i \in 1..Len(Printable) } |->
             31 + (CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c)]
Str(s) == TLCEval([i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]])

Star   == 42
Plus   == 43
Comma  == 44
Minus  == 45
Dot    == 46
Dollar == 36
Bang   == 33
Space  == 32

IsDigit(c)  == c >= 48 /\ c <= 57
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])
IsAscii(s)  == \A i \in 1..Len(s) : s[i] < 128

(* Position of the first / last occurrence of c in s, 0 when absent. *)
RECURSIVE FirstFrom(_, _, _)
FirstFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE FirstFrom(s, c, i + 1)
FirstPos(s, c) == FirstFrom(s, c, 1)
RECURSIVE LastFrom(_, _, _)
LastFrom(s, c, i) == IF i < 1 THEN 0 ELSE IF s[i] = c THEN i ELSE LastFrom(s, c, i - 1)
LastPos(s, c) == LastFrom(s, c, Len(s))

(* Comma-separated fields; field n (from 0) or empty text when there is none. *)
Split(s) ==
  FoldLeft(LAMBDA acc, c : IF c = Comma THEN Append(acc, <<>>)
                           ELSE [acc EXCEPT ![Len(acc)] = Append(@, c)],
           << <<>> >>, s)
Field(fs, n) == IF n + 1 <= Len(fs) THEN fs[n + 1] ELSE <<>>

(* Decimal value of a digit sequence; stops growing once it exceeds max. *)
SatVal(ds, max) == FoldLeft(LAMBDA a, c : IF a > max THEN a ELSE a * 10 + (c - 48), 0, ds)

Unsigned(s) == IF Len(s) >= 1 /\ s[1] = Plus THEN Tail(s) ELSE s

(* Option of an unsigned integer in 0..max: <<>> when s is not one. *)
UInt(s, max) ==
  LET d == Unsigned(s) IN
  IF d = <<>> \/ ~AllDigits(d) THEN <<>>
  ELSE LET v == SatVal(d, max) IN IF v > max THEN <<>> ELSE <<v>>

RECURSIVE StripZeros(_)
StripZeros(ds) == IF Len(ds) > 1 /\ ds[1] = 48 THEN StripZeros(Tail(ds)) ELSE ds

(* Lexicographic comparison of two digit sequences of equal length. *)
RECURSIVE LexLe(_, _, _)
LexLe(a, b, i) == IF i > Len(a) THEN TRUE
                  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLe(a, b, i + 1)
MaxU64 == Str("18446744073709551615")

(* A sequential message id: a 64-bit unsigned number, kept in canonical decimal *)
(* form because TLC's integers are narrower.                                    *)
MsgId(s) ==
  LET d == Unsigned(s) IN
  IF d = <<>> \/ ~AllDigits(d) THEN <<>>
  ELSE LET z == StripZeros(d) IN
       IF Len(z) < 20 \/ (Len(z) = 20 /\ LexLe(z, MaxU64, 1)) THEN <<z>> ELSE <<>>

(* The first nine fraction digits as an integer, rounded on the tenth. *)
Nano(fr) ==
  LET nine == [i \in 1..9 |-> IF i <= Len(fr) THEN fr[i] ELSE 48]
      v    == SatVal(nine, 999999999)
  IN IF Len(fr) >= 10 /\ fr[10] >= 53 THEN v + 1 ELSE v

(* A number as <<sign, integer part, billionths>>; sign 0 stands for "some number" *)
(* (exponents, infinities and values wider than nine digits are not modelled).     *)
Number(neg, hi, lo) ==
  LET h == IF lo = 1000000000 THEN hi + 1 ELSE hi
      l == IF lo = 1000000000 THEN 0 ELSE lo
  IN <<IF neg /\ (h # 0 \/ l # 0) THEN -1 ELSE 1, h, l>>
SomeNumber == <<0, 0, 0>>

Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
SpecialFloats == { Str("inf"), Str("infinity"), Str("nan") }
IsSpecialFloat(s) == [i \in 1..Len(s) |-> Lower(s[i])] \in SpecialFloats

PlainDec(s) ==          \* digits with at most one dot, at least one digit
  LET p == FirstPos(s, Dot) IN
  IF p = 0 THEN s # <<>> /\ AllDigits(s)
  ELSE /\ AllDigits(SubSeq(s, 1, p - 1)) /\ AllDigits(SubSeq(s, p + 1, Len(s)))
       /\ Len(s) >= 2

(* Option of a decimal number: <<>> when s is not one. *)
Dec(s) ==
  LET signed == Len(s) >= 1 /\ s[1] \in {Plus, Minus}
      neg    == signed /\ s[1] = Minus
      u      == IF signed THEN Tail(s) ELSE s
      e1     == FirstPos([i \in 1..Len(u) |-> Lower(u[i])], 101)
  IN IF u = <<>> THEN <<>>
     ELSE IF IsSpecialFloat(u) THEN <<SomeNumber>>
     ELSE IF e1 > 0 THEN
       LET x  == SubSeq(u, e1 + 1, Len(u))
           xd == IF Len(x) >= 1 /\ x[1] \in {Plus, Minus} THEN Tail(x) ELSE x
       IN IF PlainDec(SubSeq(u, 1, e1 - 1)) /\ xd # <<>> /\ AllDigits(xd) THEN <<SomeNumber>> ELSE <<>>
     ELSE IF ~PlainDec(u) THEN <<>>
     ELSE
       LET p  == FirstPos(u, Dot)
           ip == IF p = 0 THEN u ELSE SubSeq(u, 1, p - 1)
           fp == IF p = 0 THEN <<>> ELSE SubSeq(u, p + 1, Len(u))
           hi == SatVal(ip, 100000000)
       IN IF hi > 100000000 THEN <<SomeNumber>> ELSE <<Number(neg, hi, Nano(fp))>>

(* NMEA checksum: exclusive or of every character after the first. *)
XorSum(s) == FoldLeft(LAMBDA a, c : a ^^ (c % 256), 0, IF s = <<>> THEN <<>> ELSE Tail(s))
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 55 + v
Hex2(v) == << HexDigit(v \div 16), HexDigit(v % 16) >>
=============================================================================
