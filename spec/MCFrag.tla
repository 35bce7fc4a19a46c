------------------------------- MODULE MCFrag -------------------------------
(* Design model of two-part reassembly: any half of any message may arrive at *)
(* any time (lost, repeated, reordered, interleaved).  Every arrival carries  *)
(* a serial number, so that what is put together can be traced back to it.    *)
EXTENDS Store, FiniteSets
CONSTANTS Keys, MaxSerial

VARIABLES frag, serial, out, used, latest
vars == <<frag, serial, out, used, latest>>

Init == frag = <<>> /\ serial = 0 /\ out = <<>> /\ used = {}
        /\ latest = [a \in Keys \X {1, 2} |-> 0]       \* 0: no unused arrival

Content(k, n, s) == [key |-> k, num |-> n, serial |-> s]
Arrive(k, n) ==
  LET s == serial + 1
      g == FragStep(frag, k, n, Content(k, n, s))
  IN /\ serial < MaxSerial /\ serial' = s
     /\ frag' = g[1] /\ out' = g[2]
     /\ used' = used \cup { g[2][i].serial : i \in 1..Len(g[2]) }
     /\ latest' = IF g[2] = <<>> THEN [latest EXCEPT ![<<k, n>>] = s]
                  ELSE [latest EXCEPT ![<<k, 1>>] = 0, ![<<k, 2>>] = 0]
Next == \E k \in Keys, n \in {1, 2} : Arrive(k, n)
Spec == Init /\ [][Next]_vars

(* At most one half is kept per key, and it is an arrival not yet used. *)
OnePending == \A k \in DOMAIN frag :
                /\ frag[k][2].key = k /\ frag[k][2].num = frag[k][1]
                /\ frag[k][2].serial \notin used
                /\ frag[k][2].serial = latest[<<k, frag[k][1]>>]
                /\ latest[<<k, 3 - frag[k][1]>>] = 0
(* What is put together are the two halves of one key in order, one of which just arrived. *)
WellPaired == out # <<>> => /\ Len(out) = 2 /\ out[1].key = out[2].key
                            /\ out[1].num = 1 /\ out[2].num = 2
                            /\ serial \in {out[1].serial, out[2].serial}
(* No arrival is used twice. *)
UsedOnce == [][out' # <<>> => \A i \in 1..2 : out'[i].serial \notin used]_vars
(* The halves used are the latest ones, and the message completes as soon as it can. *)
LatestWins == [][\A k \in Keys, n \in {1, 2} :
                   (serial' = serial + 1 /\ Arrive(k, n)) =>
                     IF latest[<<k, 3 - n>>] = 0 THEN out' = <<>>
                     ELSE out' # <<>> /\ out'[3 - n].serial = latest[<<k, 3 - n>>]
                          /\ out'[n].serial = serial']_vars
(* An arrival touches nothing filed under another key. *)
Isolated == [][\E k \in Keys : \A j \in Keys \ {k} :
                 (j \in DOMAIN frag <=> j \in DOMAIN frag') /\ (j \in DOMAIN frag => frag'[j] = frag[j])]_vars
(* Arrivals of different keys commute, halves of a new message may come in either order. *)
Commute == \A j, k \in Keys : j # k => \A m, n \in {1, 2} :
  LET a == FragStep(frag, j, m, "x")  ab == FragStep(a[1], k, n, "y")
      b == FragStep(frag, k, n, "y")  ba == FragStep(b[1], j, m, "x")
  IN ab[1] = ba[1] /\ a[2] = ba[2] /\ b[2] = ab[2]
EitherOrder == \A k \in Keys \ DOMAIN frag :
  FragStep(FragStep(frag, k, 1, "x")[1], k, 2, "y") = FragStep(FragStep(frag, k, 2, "y")[1], k, 1, "x")
=============================================================================
