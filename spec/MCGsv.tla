------------------------------- MODULE MCGsv -------------------------------
(* Design model of satellites-in-view groups: any member of any group may     *)
(* arrive at any time.  A key is a talker and a number of sentences.          *)
EXTENDS Store, FiniteSets
CONSTANTS Talkers, Counts, MaxSerial
Keys == Talkers \X Counts

VARIABLES gsv, serial, out, used, since
vars == <<gsv, serial, out, used, since>>

Init == gsv = <<>> /\ serial = 0 /\ out = <<>> /\ used = {}
        /\ since = [k \in Keys |-> <<>>]      \* latest arrivals since the group last completed

Arrive(k, n) ==
  LET s == serial + 1
      g == GsvStep(gsv, k, k[2], n, s)
  IN /\ serial < MaxSerial /\ serial' = s /\ gsv' = g[1] /\ out' = g[2]
     /\ used' = used \cup { g[2][i] : i \in 1..Len(g[2]) }
     /\ since' = [since EXCEPT ![k] = IF g[2] # <<>> THEN <<>> ELSE (n :> s) @@ @]
Next == \E k \in Keys : \E n \in 1..k[2] : Arrive(k, n)
Spec == Init /\ [][Next]_vars

(* Memory is exactly what arrived since the last completion; nothing complete is kept. *)
Exact == /\ DOMAIN gsv = { k \in Keys : since[k] # <<>> }
         /\ \A k \in DOMAIN gsv : gsv[k] = since[k] /\ DOMAIN gsv[k] # 1..k[2]
                                  /\ \A n \in DOMAIN gsv[k] : gsv[k][n] \notin used
(* A group is reported the moment its last missing member arrives, in order of number, *)
(* from the latest arrivals, each used once.                                           *)
Reported == [][\A k \in Keys : \A n \in 1..k[2] : Arrive(k, n) =>
                 LET have == (n :> serial') @@ since[k] IN
                 IF DOMAIN have = 1..k[2]
                 THEN Len(out') = k[2] /\ (\A i \in 1..k[2] : out'[i] = have[i] /\ out'[i] \notin used)
                 ELSE out' = <<>>]_vars
Isolated == [][\E k \in Keys : \A j \in Keys \ {k} :
                 (j \in DOMAIN gsv <=> j \in DOMAIN gsv') /\ (j \in DOMAIN gsv => gsv'[j] = gsv[j])]_vars
Commute == \A j, k \in Keys : j # k => \A m \in 1..j[2], n \in 1..k[2] :
  LET a == GsvStep(gsv, j, j[2], m, 0)  ab == GsvStep(a[1], k, k[2], n, 0)
      b == GsvStep(gsv, k, k[2], n, 0)  ba == GsvStep(b[1], j, j[2], m, 0)
  IN ab[1] = ba[1] /\ a[2] = ba[2] /\ b[2] = ab[2]
(* Within a group, the order of arrival of different members does not matter. *)
AnyOrder == \A k \in Keys : \A m, n \in 1..k[2] :
  (m # n /\ GsvStep(gsv, k, k[2], m, 0)[2] = <<>> /\ GsvStep(gsv, k, k[2], n, 1)[2] = <<>>) =>
  GsvStep(GsvStep(gsv, k, k[2], m, 0)[1], k, k[2], n, 1) = GsvStep(GsvStep(gsv, k, k[2], n, 1)[1], k, k[2], m, 0)
=============================================================================
