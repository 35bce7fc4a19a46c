------------------------------- MODULE MCText -------------------------------
(* Six-bit text in every text field of types 5, 21 and 24: every character at *)
(* every place, the terminator at every place with more text after it, spaces *)
(* at every end, and for type 21 every length of the name extension.          *)
EXTENDS AisDecode, Json, IOUtils, TLC

Conf == JsonDeserialize(IOEnv.CONF)       \* [plans |-> <<...>>, print |-> BOOLEAN]
Plans == { Conf.plans[i] : i \in 1..Len(Conf.plans) }

TextFields == << <<"t5", "call">>, <<"t5", "name">>, <<"t5", "dest">>, <<"t21", "name">>, <<"t21", "ext">>,
                 <<"t24a", "name">>, <<"t24b", "vend">>, <<"t24b", "call">> >>

(* A payload in which field f holds the six-bit characters cs, then zeros. *)
PutBits(sx, f, cs) ==
  LET At(i) == LET j == (i - f[1]) \div 6 IN IF j < Len(cs) THEN (cs[j + 1] \div (2^(5 - ((i - f[1]) % 6)))) % 2 ELSE 0
      Old(i) == (sx[i \div 6 + 1] \div (2^(5 - (i % 6)))) % 2
  IN [k \in 1..Len(sx) |->
       FoldLeft(LAMBDA acc, d : 2 * acc + (LET i == 6 * (k - 1) + d IN
                  IF i >= f[1] /\ i < f[1] + f[2] THEN At(i) ELSE Old(i)), 0, <<0, 1, 2, 3, 4, 5>>)]
(* The message with nothing in it but its type, its part and a name to extend. *)
Blank(t) == LET p == [i \in 1..(IF t = "t21" THEN 60 ELSE Chars[t]) |-> IF i = 1 THEN TypeOf[t] ELSE 0]
            IN IF t = "t24b" THEN [p EXCEPT ![7] = 4] ELSE p
Blanks == [t \in {"t5", "t21", "t24a", "t24b"} |-> Blank(t)]
Room(n) == LET tf == TextFields[n] IN Layouts[tf[1]][tf[2]][2] \div 6

Letters(n) == [i \in 1..n |-> 1 + (i % 26)]               \* ABC...
VARIABLES plan, which, place, extra, text, payload
vars == <<plan, which, place, extra, text, payload>>
Init == plan \in Plans /\ which \in 1..Len(TextFields) /\ place = 0 /\ extra = 0 /\ text = <<>> /\ payload = <<>>

Choice ==
  CASE plan = "char"  -> (1..Room(which)) \X (0..63)      \* that character there, letters around it
    [] plan = "end"   -> (1..Room(which)) \X {0, 1, 2, 3} \* terminator there, then: letters, spaces, all ones, another
    [] plan = "space" -> (0..Room(which)) \X {0, 1, 2}    \* text of that length, then spaces / leading space / spaces only
    [] plan = "ext"   -> (0..14) \X (0..20)               \* extension and name of these lengths (type 21)
    [] plan = "cut"   -> (0..Room(which)) \X {0}          \* the payload ends inside the text
Made(x) ==
  LET n == Room(which)  p == x[1]  e == x[2] IN
  CASE plan = "char"  -> [Letters(n) EXCEPT ![p] = e]
    [] plan = "end"   -> [i \in 1..n |-> IF i < p THEN 1 + (i % 26) ELSE IF i = p THEN 0
                                         ELSE IF e = 0 THEN 26 ELSE IF e = 1 THEN 32 ELSE IF e = 2 THEN 63
                                         ELSE IF i = p + 1 THEN 0 ELSE 3]
    [] plan = "space" -> [i \in 1..n |-> IF e = 2 THEN (IF i <= p THEN 32 ELSE 0) ELSE IF i > p THEN 32
                                         ELSE IF e = 1 /\ i = 1 THEN 32 ELSE 1 + (i % 26)]
    [] plan = "ext"   -> [i \in 1..p |-> 20 + (i % 5)]
    [] plan = "cut"   -> Letters(p)
Build(x, cs) ==
  LET tf == TextFields[which]
      one == PutBits(Blanks[tf[1]], Layouts[tf[1]][tf[2]], cs)
      two == IF plan = "ext" THEN PutBits(one, Aton21.name, Letters(x[2]))
             ELSE IF tf[2] = "ext" THEN PutBits(one, Aton21.name, Letters(20)) ELSE one
      stop == IF plan = "cut" THEN (Layouts[tf[1]][tf[2]][1] + 6 * x[1]) \div 6 ELSE Len(two)
  IN SubSeq(two, 1, stop)
Next == /\ text = <<>> /\ place = 0 /\ payload = <<>>
        /\ (plan = "ext" => TextFields[which] = <<"t21", "ext">>)
        /\ \E x \in Choice : /\ place' = x[1] /\ extra' = x[2] /\ text' = Made(x)
                             /\ payload' = Build(x, Made(x))
        /\ UNCHANGED <<plan, which>>
Spec == Init /\ [][Next]_vars

Full(m) == [i \in 1..LongestMessage |-> IF i <= Len(m) THEN m[i] ELSE 0]
ReadText == LET tf == TextFields[which] IN Text(Full(payload), Layouts[tf[1]][tf[2]])
Plain(cs) == [i \in 1..Len(cs) |-> IF cs[i] < 32 THEN cs[i] + 64 ELSE cs[i]]
RECURSIVE NoTail(_)
NoTail(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN NoTail(SubSeq(s, 1, Len(s) - 1)) ELSE s

(* What a text can look like. *)
WellFormed == payload # <<>> =>
  LET t == ReadText IN /\ Len(t) <= Room(which)
                       /\ \A i \in 1..Len(t) : t[i] >= 32 /\ t[i] <= 95 /\ t[i] # 64
                       /\ (t # <<>> => t[Len(t)] # 32)
(* It is the characters up to the terminator. *)
AsWritten == (payload # <<>> /\ plan # "cut") =>
  LET z == { i \in 1..Len(text) : text[i] = 0 }
      upto == IF z = {} THEN text ELSE SubSeq(text, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
  IN ReadText = NoTail(Plain(upto))
(* A payload that ends inside the text gives a prefix of it, save for the character it *)
(* ends in, of which only the first bits are there.                                    *)
PrefixWhenCut == (payload # <<>> /\ plan = "cut") =>
  LET t == ReadText  k == IF Len(t) > 0 THEN Len(t) - 1 ELSE 0 IN
  Len(t) <= place + 1 /\ SubSeq(Plain(Letters(Room(which))), 1, k) = SubSeq(t, 1, k)
(* The extension continues the name where it stopped. *)
Extended == (payload # <<>> /\ plan = "ext") =>
  LET d == Decode21(Full(payload), FALSE, "Other").name IN
  IF place = 0 THEN d = Plain(Letters(extra))
  ELSE /\ Len(d) = 20 + place /\ SubSeq(d, 1, extra) = Plain(Letters(extra))
       /\ SubSeq(d, 21, 20 + place) = Plain(text)
Emit == IF Conf.print /\ payload # <<>> THEN PrintT("MSG " \o TextFields[which][1] \o " " \o ToJson(payload)) ELSE TRUE
=============================================================================
