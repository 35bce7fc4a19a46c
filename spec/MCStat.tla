------------------------------- MODULE MCStat -------------------------------
(* Design model of class B static reports (type 24): parts A and B of any     *)
(* vessel arrive in any order, lost, repeated or interleaved.                 *)
EXTENDS Store, FiniteSets
CONSTANTS Vessels, MaxSerial
Parts == {"A", "B"}
Other(p) == IF p = "A" THEN "B" ELSE "A"

VARIABLES stat, serial, out, used, latest
vars == <<stat, serial, out, used, latest>>

Init == stat = <<>> /\ serial = 0 /\ out = <<>> /\ used = {}
        /\ latest = [a \in Vessels \X Parts |-> 0]
Content(v, p, s) == [vessel |-> v, part |-> p, serial |-> s]
Arrive(v, p) ==
  LET s == serial + 1  g == StatStep(stat, v, p, Content(v, p, s))
  IN /\ serial < MaxSerial /\ serial' = s /\ stat' = g[1] /\ out' = g[2]
     /\ used' = used \cup { g[2][i].serial : i \in 1..Len(g[2]) }
     /\ latest' = IF g[2] = <<>> THEN [latest EXCEPT ![<<v, p>>] = s]
                  ELSE [latest EXCEPT ![<<v, "A">>] = 0, ![<<v, "B">>] = 0]
Next == \E v \in Vessels, p \in Parts : Arrive(v, p)
Spec == Init /\ [][Next]_vars

OnePending == \A v \in DOMAIN stat : /\ stat[v][2].vessel = v /\ stat[v][2].part = stat[v][1]
                                     /\ stat[v][2].serial = latest[<<v, stat[v][1]>>]
                                     /\ stat[v][2].serial \notin used
(* A report is one part A and one part B of one vessel, one of which just arrived. *)
WellPaired == out # <<>> => /\ out[1].part = "A" /\ out[2].part = "B" /\ out[1].vessel = out[2].vessel
                            /\ serial \in {out[1].serial, out[2].serial}
UsedOnce == [][out' # <<>> => \A i \in 1..2 : out'[i].serial \notin used]_vars
(* The same part again never completes; the other part always does, with the latest arrival. *)
Completes == [][\A v \in Vessels, p \in Parts : Arrive(v, p) =>
                  IF latest[<<v, Other(p)>>] = 0 THEN out' = <<>>
                  ELSE out' # <<>> /\ latest[<<v, Other(p)>>] \in {out'[1].serial, out'[2].serial}]_vars
Isolated == [][\E v \in Vessels : \A w \in Vessels \ {v} :
                 (w \in DOMAIN stat <=> w \in DOMAIN stat') /\ (w \in DOMAIN stat => stat'[w] = stat[w])]_vars
EitherOrder == \A v \in Vessels \ DOMAIN stat :
  StatStep(StatStep(stat, v, "A", "x")[1], v, "B", "y") = StatStep(StatStep(stat, v, "B", "y")[1], v, "A", "x")
=============================================================================
