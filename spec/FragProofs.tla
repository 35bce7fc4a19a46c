----------------------------- MODULE FragProofs -----------------------------
(* What TLC checks of MCFrag for a few messages, proved with TLAPS for any     *)
(* number of messages and arrivals and any kind of identity.                   *)
EXTENDS MCFrag, TLAPS

LEMMA WithoutDomain == \A f, k : DOMAIN Without(f, k) = DOMAIN f \ {k}
  BY DEF Without
LEMMA WithoutValue == \A f, k : \A x \in DOMAIN f \ {k} : Without(f, k)[x] = f[x]
  BY DEF Without
LEMMA WithDomain == \A f, k, v : DOMAIN With(f, k, v) = DOMAIN f \cup {k}
  BY DEF With
LEMMA WithAt == \A f, k, v : With(f, k, v)[k] = v
  BY DEF With
LEMMA WithValue == \A f, k, v : \A x \in DOMAIN f \ {k} : With(f, k, v)[x] = f[x]
  BY DEF With

Half == {1, 2}
Entry(k, n, s) == <<n, Content(k, n, s)>>

Inv ==
  /\ serial \in Nat
  /\ DOMAIN frag \subseteq Keys
  /\ latest \in [Keys \X Half -> Nat]
  /\ \A k \in Keys, n \in Half : latest[<<k, n>>] <= serial /\ latest[<<k, n>>] \notin (used \ {0})
  /\ \A u \in used : u \in Nat /\ u <= serial /\ u # 0
  /\ \A k \in DOMAIN frag : \E n \in Half :
        /\ frag[k] = Entry(k, n, latest[<<k, n>>])
        /\ latest[<<k, n>>] # 0 /\ latest[<<k, 3 - n>>] = 0
  /\ \A k \in Keys \ DOMAIN frag : \A n \in Half : latest[<<k, n>>] = 0
  /\ \A j, k \in Keys, m, n \in Half : (latest[<<j, m>>] = latest[<<k, n>>] /\ latest[<<j, m>>] # 0) => (j = k /\ m = n)

LEMMA Start == Init => Inv
  BY DEF Init, Inv, Half

(* The first case: nothing completes. *)
LEMMA Keeps ==
  ASSUME Inv, NEW k \in Keys, NEW n \in Half, Arrive(k, n), ~(k \in DOMAIN frag /\ frag[k][1] # n)
  PROVE  /\ frag' = With(frag, k, Entry(k, n, serial + 1)) /\ out' = <<>> /\ used' = used
         /\ latest' = [latest EXCEPT ![<<k, n>>] = serial + 1] /\ serial' = serial + 1
  BY DEF Arrive, FragStep, Entry, Content

LEMMA Completes ==
  ASSUME Inv, NEW k \in Keys, NEW n \in Half, Arrive(k, n), k \in DOMAIN frag /\ frag[k][1] # n
  PROVE  /\ frag' = Without(frag, k) /\ serial' = serial + 1
         /\ out' = IF n = 1 THEN <<Content(k, 1, serial + 1), Content(k, 2, latest[<<k, 2>>])>>
                            ELSE <<Content(k, 1, latest[<<k, 1>>]), Content(k, 2, serial + 1)>>
         /\ used' = used \cup {serial + 1, latest[<<k, 3 - n>>]}
         /\ latest' = [latest EXCEPT ![<<k, 1>>] = 0, ![<<k, 2>>] = 0]
<1>1. frag[k] = Entry(k, 3 - n, latest[<<k, 3 - n>>])
  BY DEF Inv, Half, Entry
<1>2. out' = IF n = 1 THEN <<Content(k, 1, serial + 1), Content(k, 2, latest[<<k, 2>>])>>
                      ELSE <<Content(k, 1, latest[<<k, 1>>]), Content(k, 2, serial + 1)>>
  BY <1>1 DEF Arrive, FragStep, Entry, Half
<1>3. frag' = Without(frag, k) /\ serial' = serial + 1
  BY DEF Arrive, FragStep
<1>4. /\ used' = used \cup { out'[i].serial : i \in 1..Len(out') }
      /\ latest' = IF out' = <<>> THEN [latest EXCEPT ![<<k, n>>] = serial + 1]
                   ELSE [latest EXCEPT ![<<k, 1>>] = 0, ![<<k, 2>>] = 0]
  BY DEF Arrive
<1>5. Len(out') = 2 /\ out' # <<>>
  BY <1>2
<1>6. 1..2 = {1, 2}
  OBVIOUS
<1>7. { out'[i].serial : i \in 1..Len(out') } = {out'[1].serial, out'[2].serial}
  BY <1>5, <1>6
<1>8. {out'[1].serial, out'[2].serial} = {serial + 1, latest[<<k, 3 - n>>]}
  BY <1>2 DEF Content, Half
<1> QED BY <1>2, <1>3, <1>4, <1>5, <1>7, <1>8

LEMMA Step == ASSUME Inv, Next PROVE Inv'
<1> PICK k \in Keys, n \in Half : Arrive(k, n)
  BY DEF Next, Half
<1> SUFFICES ASSUME TRUE PROVE Inv' OBVIOUS
<1>1. CASE ~(k \in DOMAIN frag /\ frag[k][1] # n)
  <2> USE <1>1, Keeps
  <2> DEFINE g == frag'
  <2>1. DOMAIN frag' = DOMAIN frag \cup {k} BY WithDomain
  <2>2. frag'[k] = Entry(k, n, serial + 1) BY WithAt
  <2>3. \A x \in DOMAIN frag \ {k} : frag'[x] = frag[x] BY WithValue
  <2>4. serial' = serial + 1 /\ used' = used /\ latest' = [latest EXCEPT ![<<k, n>>] = serial + 1] OBVIOUS
  <2>5. latest[<<k, 3 - n>>] = 0 /\ 3 - n \in Half /\ 3 - n # n
    BY DEF Inv, Half, Entry
  <2> HIDE <1>1, Keeps
  <2>6. latest' \in [Keys \X Half -> Nat] /\ serial' \in Nat BY <2>4 DEF Inv
  <2>7. \A j \in Keys, m \in Half : latest'[<<j, m>>] = IF j = k /\ m = n THEN serial + 1 ELSE latest[<<j, m>>]
    BY <2>4 DEF Inv
  <2>8. \A j \in Keys, m \in Half : latest'[<<j, m>>] <= serial' /\ latest'[<<j, m>>] \notin (used' \ {0})
    BY <2>4, <2>7 DEF Inv
  <2>9. \A u \in used' : u \in Nat /\ u <= serial' /\ u # 0 BY <2>4 DEF Inv
  <2>10. \A j \in DOMAIN frag' : \E m \in Half :
            /\ frag'[j] = Entry(j, m, latest'[<<j, m>>])
            /\ latest'[<<j, m>>] # 0 /\ latest'[<<j, 3 - m>>] = 0
    <3> SUFFICES ASSUME NEW j \in DOMAIN frag' PROVE \E m \in Half :
            /\ frag'[j] = Entry(j, m, latest'[<<j, m>>])
            /\ latest'[<<j, m>>] # 0 /\ latest'[<<j, 3 - m>>] = 0 OBVIOUS
    <3>1. CASE j = k BY <3>1, <2>2, <2>5, <2>7 DEF Inv
    <3>2. CASE j # k
      <4> j \in DOMAIN frag /\ j \in Keys /\ frag'[j] = frag[j] BY <3>2, <2>1, <2>3 DEF Inv
      <4> PICK m \in Half : frag[j] = Entry(j, m, latest[<<j, m>>]) /\ latest[<<j, m>>] # 0 /\ latest[<<j, 3 - m>>] = 0
        BY DEF Inv
      <4> 3 - m \in Half BY DEF Half
      <4> QED BY <3>2, <2>7
    <3> QED BY <3>1, <3>2
  <2>11. \A j \in Keys \ DOMAIN frag' : \A m \in Half : latest'[<<j, m>>] = 0 BY <2>1, <2>7 DEF Inv
  <2>12. \A i, j \in Keys, m, o \in Half : (latest'[<<i, m>>] = latest'[<<j, o>>] /\ latest'[<<i, m>>] # 0) => (i = j /\ m = o)
    <3> SUFFICES ASSUME NEW i \in Keys, NEW j \in Keys, NEW m \in Half, NEW o \in Half,
                        latest'[<<i, m>>] = latest'[<<j, o>>], latest'[<<i, m>>] # 0
                 PROVE  i = j /\ m = o OBVIOUS
    <3>1. latest[<<i, m>>] \in Nat /\ latest[<<i, m>>] <= serial /\ latest[<<j, o>>] \in Nat /\ latest[<<j, o>>] <= serial /\ serial \in Nat
      BY DEF Inv
    <3>2. \A a \in Nat, s \in Nat : a <= s => a # s + 1 OBVIOUS
    <3> QED BY <3>1, <3>2, <2>7 DEF Inv
  <2> QED BY <2>1, <2>6, <2>8, <2>9, <2>10, <2>11, <2>12 DEF Inv
<1>2. CASE k \in DOMAIN frag /\ frag[k][1] # n
  <2> USE <1>2, Completes
  <2>1. DOMAIN frag' = DOMAIN frag \ {k} BY WithoutDomain
  <2>3. \A x \in DOMAIN frag \ {k} : frag'[x] = frag[x] BY WithoutValue
  <2>4. /\ serial' = serial + 1 /\ used' = used \cup {serial + 1, latest[<<k, 3 - n>>]}
        /\ latest' = [latest EXCEPT ![<<k, 1>>] = 0, ![<<k, 2>>] = 0] OBVIOUS
  <2>5. latest[<<k, 3 - n>>] # 0 /\ 3 - n \in Half
    BY DEF Inv, Half, Entry
  <2> HIDE <1>2, Completes
  <2>6. latest' \in [Keys \X Half -> Nat] /\ serial' \in Nat BY <2>4 DEF Inv
  <2>7. \A j \in Keys, m \in Half : latest'[<<j, m>>] = IF j = k THEN 0 ELSE latest[<<j, m>>]
    BY <2>4 DEF Inv, Half
  <2>8. \A j \in Keys, m \in Half : latest'[<<j, m>>] <= serial' /\ latest'[<<j, m>>] \notin (used' \ {0})
    <3> SUFFICES ASSUME NEW j \in Keys, NEW m \in Half, j # k
                 PROVE  latest[<<j, m>>] <= serial + 1 /\ latest[<<j, m>>] \notin ((used \cup {serial + 1, latest[<<k, 3 - n>>]}) \ {0})
      BY <2>4, <2>7 DEF Inv
    <3>1. latest[<<j, m>>] \in Nat /\ latest[<<j, m>>] <= serial /\ serial \in Nat BY DEF Inv
    <3>2. latest[<<j, m>>] # 0 => latest[<<j, m>>] # latest[<<k, 3 - n>>] BY <2>5 DEF Inv
    <3>3. latest[<<j, m>>] # serial + 1 BY <3>1
    <3>4. latest[<<j, m>>] \notin (used \ {0}) BY DEF Inv
    <3> QED BY <3>1, <3>2, <3>3, <3>4
  <2>9. \A u \in used' : u \in Nat /\ u <= serial' /\ u # 0
    <3>1. latest[<<k, 3 - n>>] \in Nat /\ latest[<<k, 3 - n>>] <= serial /\ serial \in Nat BY <2>5 DEF Inv
    <3>2. serial + 1 # 0 BY <3>1
    <3> QED BY <3>1, <3>2, <2>4, <2>5 DEF Inv
  <2>10. \A j \in DOMAIN frag' : \E m \in Half :
            /\ frag'[j] = Entry(j, m, latest'[<<j, m>>])
            /\ latest'[<<j, m>>] # 0 /\ latest'[<<j, 3 - m>>] = 0
    <3> SUFFICES ASSUME NEW j \in DOMAIN frag' PROVE \E m \in Half :
            /\ frag'[j] = Entry(j, m, latest'[<<j, m>>])
            /\ latest'[<<j, m>>] # 0 /\ latest'[<<j, 3 - m>>] = 0 OBVIOUS
    <3> j \in DOMAIN frag /\ j # k /\ j \in Keys /\ frag'[j] = frag[j] BY <2>1, <2>3 DEF Inv
    <3> PICK m \in Half : frag[j] = Entry(j, m, latest[<<j, m>>]) /\ latest[<<j, m>>] # 0 /\ latest[<<j, 3 - m>>] = 0
      BY DEF Inv
    <3> 3 - m \in Half BY DEF Half
    <3> QED BY <2>7
  <2>11. \A j \in Keys \ DOMAIN frag' : \A m \in Half : latest'[<<j, m>>] = 0 BY <2>1, <2>7 DEF Inv
  <2>12. \A i, j \in Keys, m, o \in Half : (latest'[<<i, m>>] = latest'[<<j, o>>] /\ latest'[<<i, m>>] # 0) => (i = j /\ m = o)
    BY <2>7 DEF Inv
  <2> QED BY <2>1, <2>6, <2>8, <2>9, <2>10, <2>11, <2>12 DEF Inv
<1> QED BY <1>1, <1>2

LEMMA Stutter == ASSUME Inv, UNCHANGED vars PROVE Inv'
  BY DEF Inv, vars

THEOREM Invariant == Spec => []Inv
  BY Start, Step, Stutter, PTL DEF Spec

(* One pending half per identity: it belongs to it, is its latest arrival and not yet used. *)
THEOREM Spec => []OnePending
<1>1. Inv => OnePending
  <2> SUFFICES ASSUME Inv, NEW k \in DOMAIN frag
               PROVE /\ frag[k][2].key = k /\ frag[k][2].num = frag[k][1]
                     /\ frag[k][2].serial \notin used
                     /\ frag[k][2].serial = latest[<<k, frag[k][1]>>]
                     /\ latest[<<k, 3 - frag[k][1]>>] = 0
    BY DEF OnePending
  <2> PICK n \in Half : frag[k] = Entry(k, n, latest[<<k, n>>]) /\ latest[<<k, n>>] # 0 /\ latest[<<k, 3 - n>>] = 0
    BY DEF Inv
  <2> k \in Keys BY DEF Inv
  <2> frag[k][1] = n /\ frag[k][2] = Content(k, n, latest[<<k, n>>]) BY DEF Entry
  <2> latest[<<k, n>>] \notin used BY DEF Inv
  <2> QED BY DEF Content
<1> QED BY <1>1, Invariant, PTL

(* What is put together are the two halves of one identity, in order, one of which has just *)
(* arrived and neither of which was used before.                                             *)
THEOREM Paired ==
  ASSUME Inv, Next
  PROVE  out' # <<>> => /\ out'[1].key = out'[2].key /\ out'[1].num = 1 /\ out'[2].num = 2
                        /\ serial' \in {out'[1].serial, out'[2].serial}
                        /\ out'[1].serial \notin used /\ out'[2].serial \notin used
<1> PICK k \in Keys, n \in Half : Arrive(k, n) BY DEF Next, Half
<1>1. CASE ~(k \in DOMAIN frag /\ frag[k][1] # n) BY <1>1, Keeps
<1>2. CASE k \in DOMAIN frag /\ frag[k][1] # n
  <2>1. /\ out' = IF n = 1 THEN <<Content(k, 1, serial + 1), Content(k, 2, latest[<<k, 2>>])>>
                           ELSE <<Content(k, 1, latest[<<k, 1>>]), Content(k, 2, serial + 1)>>
        /\ serial' = serial + 1 BY <1>2, Completes
  <2>2. serial + 1 \notin used /\ serial \in Nat BY DEF Inv
  <2>3. latest[<<k, 3 - n>>] # 0 /\ latest[<<k, 3 - n>>] \notin used BY <1>2 DEF Inv, Half, Entry
  <2> QED BY <2>1, <2>2, <2>3 DEF Content, Half
<1> QED BY <1>1, <1>2

(* The latest halves are the ones used, and a message completes as soon as it can. *)
THEOREM Latest ==
  ASSUME Inv, NEW k \in Keys, NEW n \in Half, Arrive(k, n)
  PROVE  IF latest[<<k, 3 - n>>] = 0 THEN out' = <<>>
         ELSE out' # <<>> /\ out'[3 - n].serial = latest[<<k, 3 - n>>] /\ out'[n].serial = serial'
<1>1. CASE ~(k \in DOMAIN frag /\ frag[k][1] # n)
  <2>1. out' = <<>> BY <1>1, Keeps
  <2>2. latest[<<k, 3 - n>>] = 0
    <3>0. 3 - n \in Half /\ 3 - n # n BY DEF Half
    <3>1. CASE k \notin DOMAIN frag BY <3>0, <3>1 DEF Inv
    <3>2. CASE k \in DOMAIN frag
      <4> PICK m \in Half : frag[k] = Entry(k, m, latest[<<k, m>>]) /\ latest[<<k, m>>] # 0 /\ latest[<<k, 3 - m>>] = 0
        BY <3>2 DEF Inv
      <4> m = n BY <3>2, <1>1 DEF Entry
      <4> QED BY <3>0
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>1, <2>2
<1>2. CASE k \in DOMAIN frag /\ frag[k][1] # n
  <2>1. /\ out' = IF n = 1 THEN <<Content(k, 1, serial + 1), Content(k, 2, latest[<<k, 2>>])>>
                           ELSE <<Content(k, 1, latest[<<k, 1>>]), Content(k, 2, serial + 1)>>
        /\ serial' = serial + 1 BY <1>2, Completes
  <2>2. latest[<<k, 3 - n>>] # 0 BY <1>2 DEF Inv, Half, Entry
  <2> QED BY <2>1, <2>2 DEF Content, Half
<1> QED BY <1>1, <1>2

(* An arrival touches nothing filed under another identity. *)
THEOREM Apart ==
  ASSUME NEW k \in Keys, NEW n \in Half, Arrive(k, n), NEW j \in Keys, j # k
  PROVE  (j \in DOMAIN frag <=> j \in DOMAIN frag') /\ (j \in DOMAIN frag => frag'[j] = frag[j])
  BY WithoutDomain, WithoutValue, WithDomain, WithValue DEF Arrive, FragStep
=============================================================================
