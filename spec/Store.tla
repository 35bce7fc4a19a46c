------------------------------- MODULE Store -------------------------------
(* The memory of a parser between sentences, as pure steps.  The same         *)
(* operators are explored by the design models (small alphabets, abstract     *)
(* payloads) and evaluated by the trace specification (real sentences).       *)
(*                                                                            *)
(*  frag : [ <<kind, id, channel>> -> <<number, content>> ]                   *)
(*         the half of a two-part AIS message that has arrived                *)
(*  gsv  : [ <<talker, count>> -> [1..count ~> content] ]                     *)
(*         the members of a satellites-in-view group that have arrived        *)
(*  stat : [ mmsi -> <<part, content>> ]                                      *)
(*         the half of a class B static report that has arrived               *)
EXTENDS Integers, Sequences, TLC

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == (k :> v) @@ f

(* A half (num is 1 or 2) arrives.  <<new memory, <<>>>> while the message is *)
(* incomplete, else <<new memory, <<first half, second half>>>>.              *)
FragStep(frag, key, num, content) ==
  IF key \in DOMAIN frag /\ frag[key][1] # num
  THEN << Without(frag, key),
          IF num = 1 THEN <<content, frag[key][2]>> ELSE <<frag[key][2], content>> >>
  ELSE << With(frag, key, <<num, content>>), <<>> >>

(* Member num of a group of count sentences arrives. *)
GsvStep(gsv, key, count, num, content) ==
  LET have == IF key \in DOMAIN gsv THEN gsv[key] ELSE <<>>
      now  == With(have, num, content)
  IN IF DOMAIN now = 1..count
     THEN << Without(gsv, key), [i \in 1..count |-> now[i]] >>
     ELSE << With(gsv, key, now), <<>> >>

(* Part "A" or "B" of a class B static report arrives. *)
StatStep(stat, mmsi, part, content) ==
  IF mmsi \in DOMAIN stat /\ stat[mmsi][1] # part
  THEN << Without(stat, mmsi),
          IF part = "A" THEN <<content, stat[mmsi][2]>> ELSE <<stat[mmsi][2], content>> >>
  ELSE << With(stat, mmsi, <<part, content>>), <<>> >>

Empty == [frag |-> <<>>, gsv |-> <<>>, stat |-> <<>>]
=============================================================================
