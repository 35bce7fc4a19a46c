------------------------------- MODULE SixBit -------------------------------
(* The AIS six-bit armor.  A payload is a sequence of character codes, its    *)
(* bits are the concatenation of one six-bit value ("sextet") per character,  *)
(* most significant bit first.  A field is <<offset, length>> in bits; bits   *)
(* beyond the end of the payload read as zero.                                *)
EXTENDS Integers, Sequences, SequencesExt

IsArmor(c) == (c >= 48 /\ c <= 87) \/ (c >= 96 /\ c <= 119)
Sextet(c)  == IF c <= 87 THEN c - 48 ELSE c - 56
Armor(v)   == IF v < 40 THEN v + 48 ELSE v + 56

ValidPayload(p) == \A i \in 1..Len(p) : IsArmor(p[i])
(* The sextets of a payload, with zeros to the end of the longest message. *)
LongestMessage == 75
Sextets(p) == [i \in 1..(IF Len(p) < LongestMessage THEN LongestMessage ELSE Len(p)) |->
                IF i <= Len(p) THEN Sextet(p[i]) ELSE 0]

(* Unsigned value of a field of at most 30 bits. *)
U(sx, f) ==
  LET end   == f[1] + f[2]
      k0    == f[1] \div 6 + 1                     \* first and last sextet involved
      k1    == (end - 1) \div 6 + 1
      first == sx[k0] % (2^(6 * k0 - f[1]))
  IN IF k0 = k1 THEN first \div (2^(6 * k0 - end))
     ELSE FoldLeft(LAMBDA a, v : a * 64 + v, first, SubSeq(sx, k0 + 1, k1 - 1)) * (2^(end - 6 * (k1 - 1)))
          + sx[k1] \div (2^(6 * k1 - end))
S(sx, f) == LET v == U(sx, f) IN                              \* two's complement
            IF v >= 2^(f[2] - 1) THEN v - 2^(f[2] - 1) - 2^(f[2] - 1) ELSE v
B(sx, f) == U(sx, f) # 0                                      \* flag

(* Six-bit text: ends at the first zero character, trailing spaces dropped. *)
Char(v) == IF v < 32 THEN v + 64 ELSE v
RECURSIVE TextFrom(_, _, _, _)
TextFrom(sx, i, n, acc) ==
  IF n = 0 THEN acc
  ELSE LET v == U(sx, <<i, 6>>) IN
       IF v = 0 THEN acc ELSE TextFrom(sx, i + 6, n - 1, Append(acc, Char(v)))
RECURSIVE TrimEnd(_)
TrimEnd(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN TrimEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
Text(sx, f) == TrimEnd(TextFrom(sx, f[1], f[2] \div 6, <<>>))
=============================================================================
