----------------------------- MODULE GsvProofs ------------------------------
(* What TLC checks of MCGsv for a few groups, proved with TLAPS for any number *)
(* of talkers, sizes and arrivals.                                             *)
EXTENDS MCGsv, TLAPS

LEMMA WithoutDomain == \A f, k : DOMAIN Without(f, k) = DOMAIN f \ {k}
  BY DEF Without
LEMMA WithoutValue == \A f, k : \A x \in DOMAIN f \ {k} : Without(f, k)[x] = f[x]
  BY DEF Without
LEMMA WithDomain == \A f, k, v : DOMAIN With(f, k, v) = DOMAIN f \cup {k}
  BY DEF With
LEMMA WithAt == \A f, k, v : With(f, k, v)[k] = v
  BY DEF With
LEMMA WithValue == \A f, k, v : \A x \in DOMAIN f \ {k} : With(f, k, v)[x] = f[x]
  BY DEF With
LEMMA Nonempty == \A f, k, v : With(f, k, v) # <<>>
<1> SUFFICES ASSUME NEW f, NEW k, NEW v PROVE With(f, k, v) # <<>> OBVIOUS
<1>1. DOMAIN <<>> = {} OBVIOUS
<1>2. k \in DOMAIN With(f, k, v) BY WithDomain
<1> QED BY <1>1, <1>2

(* Memory is exactly what arrived since the last completion. *)
Memory == /\ since \in [Keys -> {since[k] : k \in Keys}]
          /\ DOMAIN gsv = { k \in Keys : since[k] # <<>> }
          /\ \A k \in DOMAIN gsv : gsv[k] = since[k] /\ DOMAIN gsv[k] # 1..k[2]

LEMMA Start == Init => Memory
<1> SUFFICES ASSUME Init PROVE Memory OBVIOUS
<1>1. gsv = <<>> /\ since = [k \in Keys |-> <<>>] BY DEF Init
<1>2. DOMAIN gsv = {} BY <1>1
<1> QED BY <1>1, <1>2 DEF Memory

Now(k, n) == With(since[k], n, serial + 1)
LEMMA Have == ASSUME Memory, NEW k \in Keys PROVE (IF k \in DOMAIN gsv THEN gsv[k] ELSE <<>>) = since[k]
  BY DEF Memory

LEMMA Sooner ==
  ASSUME Memory, NEW k \in Keys, NEW n \in 1..k[2], Arrive(k, n), DOMAIN Now(k, n) # 1..k[2]
  PROVE  gsv' = With(gsv, k, Now(k, n)) /\ out' = <<>> /\ since' = [since EXCEPT ![k] = Now(k, n)]
<1>1. GsvStep(gsv, k, k[2], n, serial + 1) = << With(gsv, k, Now(k, n)), <<>> >>
  BY Have DEF GsvStep, Now
<1> QED BY <1>1 DEF Arrive, Now, With

LEMMA Last ==
  ASSUME Memory, NEW k \in Keys, NEW n \in 1..k[2], Arrive(k, n), DOMAIN Now(k, n) = 1..k[2], k[2] \in Nat
  PROVE  gsv' = Without(gsv, k) /\ out' = [i \in 1..k[2] |-> Now(k, n)[i]] /\ since' = [since EXCEPT ![k] = <<>>]
<1>1. GsvStep(gsv, k, k[2], n, serial + 1) = << Without(gsv, k), [i \in 1..k[2] |-> Now(k, n)[i]] >>
  BY Have DEF GsvStep, Now
<1>2. [i \in 1..k[2] |-> Now(k, n)[i]] # <<>>
  <2>1. DOMAIN [i \in 1..k[2] |-> Now(k, n)[i]] = 1..k[2] /\ n \in 1..k[2] /\ DOMAIN <<>> = {} OBVIOUS
  <2> QED BY <2>1
<1> QED BY <1>1, <1>2 DEF Arrive, Now, With

LEMMA Step == ASSUME Memory, Next, Counts \subseteq Nat PROVE Memory'
<1> PICK k \in Keys : \E n \in 1..k[2] : Arrive(k, n) BY DEF Next
<1> PICK n \in 1..k[2] : Arrive(k, n) OBVIOUS
<1> k[2] \in Nat BY DEF Keys
<1>1. CASE DOMAIN Now(k, n) # 1..k[2]
  <2>1. gsv' = With(gsv, k, Now(k, n)) /\ since' = [since EXCEPT ![k] = Now(k, n)] BY <1>1, Sooner
  <2>2. Now(k, n) # <<>> BY Nonempty DEF Now
  <2>3. DOMAIN gsv' = DOMAIN gsv \cup {k} /\ gsv'[k] = Now(k, n) /\ (\A x \in DOMAIN gsv \ {k} : gsv'[x] = gsv[x])
    BY <2>1, WithDomain, WithAt, WithValue
  <2>4. \A j \in Keys : since'[j] = IF j = k THEN Now(k, n) ELSE since[j] BY <2>1 DEF Memory
  <2>5. since' \in [Keys -> {since'[j] : j \in Keys}] BY <2>1 DEF Memory
  <2>6. DOMAIN gsv' = { j \in Keys : since'[j] # <<>> } BY <2>2, <2>3, <2>4 DEF Memory
  <2>7. \A j \in DOMAIN gsv' : gsv'[j] = since'[j] /\ DOMAIN gsv'[j] # 1..j[2] BY <1>1, <2>3, <2>4 DEF Memory
  <2> QED BY <2>5, <2>6, <2>7 DEF Memory
<1>2. CASE DOMAIN Now(k, n) = 1..k[2]
  <2>1. gsv' = Without(gsv, k) /\ since' = [since EXCEPT ![k] = <<>>] BY <1>2, Last
  <2>3. DOMAIN gsv' = DOMAIN gsv \ {k} /\ (\A x \in DOMAIN gsv \ {k} : gsv'[x] = gsv[x])
    BY <2>1, WithoutDomain, WithoutValue
  <2>4. \A j \in Keys : since'[j] = IF j = k THEN <<>> ELSE since[j] BY <2>1 DEF Memory
  <2>5. since' \in [Keys -> {since'[j] : j \in Keys}] BY <2>1 DEF Memory
  <2>6. DOMAIN gsv' = { j \in Keys : since'[j] # <<>> } BY <2>3, <2>4 DEF Memory
  <2>7. \A j \in DOMAIN gsv' : gsv'[j] = since'[j] /\ DOMAIN gsv'[j] # 1..j[2] BY <2>3, <2>4 DEF Memory
  <2> QED BY <2>5, <2>6, <2>7 DEF Memory
<1> QED BY <1>1, <1>2

LEMMA Stutter == ASSUME Memory, UNCHANGED vars PROVE Memory'
  BY DEF Memory, vars

THEOREM Invariant == ASSUME Counts \subseteq Nat PROVE Spec => []Memory
<1>1. Memory /\ [Next]_vars => Memory' BY Step, Stutter
<1> QED BY <1>1, Start, PTL DEF Spec

(* A group is reported exactly when its last missing member arrives, in order of number, from *)
(* the latest arrivals since it was last reported.                                            *)
THEOREM Reports ==
  ASSUME Memory, NEW k \in Keys, NEW n \in 1..k[2], Arrive(k, n), k[2] \in Nat
  PROVE  IF DOMAIN since[k] \cup {n} = 1..k[2]
         THEN out' = [i \in 1..k[2] |-> IF i = n THEN serial + 1 ELSE since[k][i]]
         ELSE out' = <<>>
<1>1. DOMAIN Now(k, n) = DOMAIN since[k] \cup {n} BY WithDomain DEF Now
<1>2. Now(k, n)[n] = serial + 1 /\ \A i \in DOMAIN since[k] \ {n} : Now(k, n)[i] = since[k][i] BY WithAt, WithValue DEF Now
<1>3. CASE DOMAIN Now(k, n) = 1..k[2]
  <2>1. out' = [i \in 1..k[2] |-> Now(k, n)[i]] BY <1>3, Last
  <2>2. \A i \in 1..k[2] : Now(k, n)[i] = IF i = n THEN serial + 1 ELSE since[k][i] BY <1>1, <1>2, <1>3
  <2> QED BY <2>1, <2>2, <1>1, <1>3
<1>4. CASE DOMAIN Now(k, n) # 1..k[2] BY <1>4, <1>1, Sooner
<1> QED BY <1>3, <1>4

(* An arrival touches nothing of another group. *)
THEOREM Apart ==
  ASSUME NEW k \in Keys, NEW n \in 1..k[2], Arrive(k, n), NEW j \in Keys, j # k
  PROVE  (j \in DOMAIN gsv <=> j \in DOMAIN gsv') /\ (j \in DOMAIN gsv => gsv'[j] = gsv[j])
<1> DEFINE have == IF k \in DOMAIN gsv THEN gsv[k] ELSE <<>>
           now  == With(have, n, serial + 1)
<1>1. gsv' = GsvStep(gsv, k, k[2], n, serial + 1)[1] BY DEF Arrive
<1>2. gsv' = Without(gsv, k) \/ gsv' = With(gsv, k, now) BY <1>1 DEF GsvStep
<1> HIDE DEF now, have
<1>3. CASE gsv' = Without(gsv, k) BY <1>3, WithoutDomain, WithoutValue
<1>4. CASE gsv' = With(gsv, k, now) BY <1>4, WithDomain, WithValue
<1> QED BY <1>2, <1>3, <1>4
=============================================================================
