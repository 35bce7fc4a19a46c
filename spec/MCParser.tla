------------------------------ MODULE MCParser ------------------------------
(* The whole parser over a small alphabet of real sentences: TLC visits every *)
(* reachable memory and every transition, checks what must hold of each, and  *)
(* prints the transitions, from which the check makes walks that take every   *)
(* one of them through the real code.                                         *)
EXTENDS NmeaParser, Json, IOUtils, TLCExt, FiniteSets

Alphabet == JsonDeserialize(IOEnv.ALPHABET)
Now      == <<2021, 3, 14, 15, 9, 26>>
Printing == IOEnv.PRINT = "1"

VARIABLES mem, last          \* last: which sentence, and what it gave
vars == <<mem, last>>
View == mem

Take(i) == LET o == Step(mem, Now, Alphabet[i]) IN mem' = o.st /\ last' = <<i, o.r>>
Init == mem = Empty /\ last = <<0, Incomplete>>
Next == \E i \in 1..Len(Alphabet) : Take(i)
Spec == Init /\ [][Next]_vars

Edge == IF Printing THEN PrintT("EDGE " \o ToString(TLCFP(mem)) \o " " \o ToString(last'[1]) \o " "
                             \o ToString(TLCFP(mem')) \o " " \o last'[2].k)
        ELSE TRUE

----------------------------------------------------------------------------
Kind(s)   == IF ~ChecksumOk(s) \/ Len(Split(Body(s))) < 2 THEN "rejected"
             ELSE LET ty == Bytes(Split(Body(s))[1])  f == Formatter(ty) IN
                  IF ty[1] = Bang /\ f \in {VDM, VDO} THEN "ais"
                  ELSE IF ty[1] = Dollar /\ f \in Formats THEN "gnss" ELSE "rejected"

(* The memory holds only halves and incomplete groups. *)
MemoryOk ==
  /\ \A k \in DOMAIN mem.frag : k[1] \in {VDM, VDO} /\ mem.frag[k][1] \in {1, 2}
  /\ \A k \in DOMAIN mem.gsv  : mem.gsv[k] # <<>> /\ DOMAIN mem.gsv[k] \subseteq 1..k[2]
                                /\ DOMAIN mem.gsv[k] # 1..k[2]
  /\ \A m \in DOMAIN mem.stat : /\ mem.stat[m][1] \in {"A", "B"} /\ mem.stat[m][2].mmsi = m
                                /\ (mem.stat[m][1] = "A" <=> mem.stat[m][2].model = <<>>)
(* A rejected sentence leaves no trace, unless it completes a two-part message that  *)
(* cannot be decoded: then that message is done with.                                *)
Grew(a, b) == \E k \in DOMAIN b : k \notin DOMAIN a \/ a[k] # b[k]
Untraced == [][last'[2].k = "Err" =>
                 /\ mem'.gsv = mem.gsv /\ mem'.stat = mem.stat /\ ~Grew(mem.frag, mem'.frag)
                 /\ (Kind(Alphabet[last'[1]]) = "rejected" => mem' = mem)]_vars
(* Memory grows only with an incomplete result, and by one entry at most. *)
Size(m) == Cardinality(DOMAIN m.frag) + Cardinality(DOMAIN m.stat)
           + Cardinality(UNION { {<<k, n>> : n \in DOMAIN m.gsv[k]} : k \in DOMAIN m.gsv })
Bounded == [][/\ Size(mem') <= Size(mem) + 1
              /\ (last'[2].k # "Incomplete" => Size(mem') <= Size(mem))]_vars
(* GNSS sentences and AIS sentences do not touch each other's memory. *)
Apart == [][CASE Kind(Alphabet[last'[1]]) = "gnss" -> mem'.frag = mem.frag /\ mem'.stat = mem.stat
              [] Kind(Alphabet[last'[1]]) = "ais"  -> mem'.gsv = mem.gsv
              [] OTHER -> mem' = mem]_vars
(* A sentence that gives a result of its own on a fresh parser gives it always. *)
SelfContained(i) == LET o == Step(Empty, Now, Alphabet[i]) IN
                    o.st = Empty /\ o.r.k \notin {"Incomplete", "Err", "Gsv"}
Stateless == \A i \in 1..Len(Alphabet) : SelfContained(i) =>
               LET o == Step(mem, Now, Alphabet[i]) IN o.st = mem /\ o.r = Step(Empty, Now, Alphabet[i]).r
=============================================================================
