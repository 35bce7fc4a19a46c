----------------------------- MODULE StatProofs -----------------------------
(* What TLC checks of MCStat for a few messages, proved with TLAPS for any     *)
(* number of messages and arrivals and any vessels.                            *)
EXTENDS MCStat, TLAPS

LEMMA WithoutDomain == \A f, k : DOMAIN Without(f, k) = DOMAIN f \ {k}
  BY DEF Without
LEMMA WithoutValue == \A f, k : \A x \in DOMAIN f \ {k} : Without(f, k)[x] = f[x]
  BY DEF Without
LEMMA WithDomain == \A f, k, v : DOMAIN With(f, k, v) = DOMAIN f \cup {k}
  BY DEF With
LEMMA WithAt == \A f, k, v : With(f, k, v)[k] = v
  BY DEF With
LEMMA WithValue == \A f, k, v : \A x \in DOMAIN f \ {k} : With(f, k, v)[x] = f[x]
  BY DEF With

Entry(k, n, s) == <<n, Content(k, n, s)>>

Inv ==
  /\ serial \in Nat
  /\ DOMAIN stat \subseteq Vessels
  /\ latest \in [Vessels \X Parts -> Nat]
  /\ \A k \in Vessels, n \in Parts : latest[<<k, n>>] <= serial /\ latest[<<k, n>>] \notin (used \ {0})
  /\ \A u \in used : u \in Nat /\ u <= serial /\ u # 0
  /\ \A k \in DOMAIN stat : \E n \in Parts :
        /\ stat[k] = Entry(k, n, latest[<<k, n>>])
        /\ latest[<<k, n>>] # 0 /\ latest[<<k, Other(n)>>] = 0
  /\ \A k \in Vessels \ DOMAIN stat : \A n \in Parts : latest[<<k, n>>] = 0
  /\ \A j, k \in Vessels, m, n \in Parts : (latest[<<j, m>>] = latest[<<k, n>>] /\ latest[<<j, m>>] # 0) => (j = k /\ m = n)

LEMMA Start == Init => Inv
  BY DEF Init, Inv, Parts

(* The first case: nothing completes. *)
LEMMA Keeps ==
  ASSUME Inv, NEW k \in Vessels, NEW n \in Parts, Arrive(k, n), ~(k \in DOMAIN stat /\ stat[k][1] # n)
  PROVE  /\ stat' = With(stat, k, Entry(k, n, serial + 1)) /\ out' = <<>> /\ used' = used
         /\ latest' = [latest EXCEPT ![<<k, n>>] = serial + 1] /\ serial' = serial + 1
  BY DEF Arrive, StatStep, Entry, Content

LEMMA Complete ==
  ASSUME Inv, NEW k \in Vessels, NEW n \in Parts, Arrive(k, n), k \in DOMAIN stat /\ stat[k][1] # n
  PROVE  /\ stat' = Without(stat, k) /\ serial' = serial + 1
         /\ out' = IF n = "A" THEN <<Content(k, "A", serial + 1), Content(k, "B", latest[<<k, "B">>])>>
                            ELSE <<Content(k, "A", latest[<<k, "A">>]), Content(k, "B", serial + 1)>>
         /\ used' = used \cup {serial + 1, latest[<<k, Other(n)>>]}
         /\ latest' = [latest EXCEPT ![<<k, "A">>] = 0, ![<<k, "B">>] = 0]
<1>1. stat[k] = Entry(k, Other(n), latest[<<k, Other(n)>>])
  BY DEF Inv, Parts, Other, Entry
<1>2. out' = IF n = "A" THEN <<Content(k, "A", serial + 1), Content(k, "B", latest[<<k, "B">>])>>
                      ELSE <<Content(k, "A", latest[<<k, "A">>]), Content(k, "B", serial + 1)>>
  BY <1>1 DEF Arrive, StatStep, Entry, Parts, Other
<1>3. stat' = Without(stat, k) /\ serial' = serial + 1
  BY DEF Arrive, StatStep
<1>4. /\ used' = used \cup { out'[i].serial : i \in 1..Len(out') }
      /\ latest' = IF out' = <<>> THEN [latest EXCEPT ![<<k, n>>] = serial + 1]
                   ELSE [latest EXCEPT ![<<k, "A">>] = 0, ![<<k, "B">>] = 0]
  BY DEF Arrive
<1>5. Len(out') = 2 /\ out' # <<>>
  BY <1>2
<1>6. 1..2 = {1, 2}
  OBVIOUS
<1>7. { out'[i].serial : i \in 1..Len(out') } = {out'[1].serial, out'[2].serial}
  BY <1>5, <1>6
<1>8. {out'[1].serial, out'[2].serial} = {serial + 1, latest[<<k, Other(n)>>]}
  BY <1>2 DEF Content, Parts, Other
<1> QED BY <1>2, <1>3, <1>4, <1>5, <1>7, <1>8

LEMMA Step == ASSUME Inv, Next PROVE Inv'
<1> PICK k \in Vessels, n \in Parts : Arrive(k, n)
  BY DEF Next, Parts
<1> SUFFICES ASSUME TRUE PROVE Inv' OBVIOUS
<1>1. CASE ~(k \in DOMAIN stat /\ stat[k][1] # n)
  <2> USE <1>1, Keeps
  <2> DEFINE g == stat'
  <2>1. DOMAIN stat' = DOMAIN stat \cup {k} BY WithDomain
  <2>2. stat'[k] = Entry(k, n, serial + 1) BY WithAt
  <2>3. \A x \in DOMAIN stat \ {k} : stat'[x] = stat[x] BY WithValue
  <2>4. serial' = serial + 1 /\ used' = used /\ latest' = [latest EXCEPT ![<<k, n>>] = serial + 1] OBVIOUS
  <2>5. latest[<<k, Other(n)>>] = 0 /\ Other(n) \in Parts /\ Other(n) # n
    <3>0. Other(n) \in Parts /\ Other(n) # n BY DEF Parts, Other
    <3>1. CASE k \notin DOMAIN stat BY <3>0, <3>1 DEF Inv
    <3>2. CASE k \in DOMAIN stat
      <4> PICK m \in Parts : stat[k] = Entry(k, m, latest[<<k, m>>]) /\ latest[<<k, m>>] # 0 /\ latest[<<k, Other(m)>>] = 0
        BY <3>2 DEF Inv
      <4> m = n BY <3>2, <1>1 DEF Entry
      <4> QED BY <3>0
    <3> QED BY <3>1, <3>2
  <2> HIDE <1>1, Keeps
  <2>6. latest' \in [Vessels \X Parts -> Nat] /\ serial' \in Nat BY <2>4 DEF Inv
  <2>7. \A j \in Vessels, m \in Parts : latest'[<<j, m>>] = IF j = k /\ m = n THEN serial + 1 ELSE latest[<<j, m>>]
    BY <2>4 DEF Inv
  <2>8. \A j \in Vessels, m \in Parts : latest'[<<j, m>>] <= serial' /\ latest'[<<j, m>>] \notin (used' \ {0})
    BY <2>4, <2>7 DEF Inv
  <2>9. \A u \in used' : u \in Nat /\ u <= serial' /\ u # 0 BY <2>4 DEF Inv
  <2>10. \A j \in DOMAIN stat' : \E m \in Parts :
            /\ stat'[j] = Entry(j, m, latest'[<<j, m>>])
            /\ latest'[<<j, m>>] # 0 /\ latest'[<<j, Other(m)>>] = 0
    <3> SUFFICES ASSUME NEW j \in DOMAIN stat' PROVE \E m \in Parts :
            /\ stat'[j] = Entry(j, m, latest'[<<j, m>>])
            /\ latest'[<<j, m>>] # 0 /\ latest'[<<j, Other(m)>>] = 0 OBVIOUS
    <3>1. CASE j = k BY <3>1, <2>2, <2>5, <2>7 DEF Inv
    <3>2. CASE j # k
      <4> j \in DOMAIN stat /\ j \in Vessels /\ stat'[j] = stat[j] BY <3>2, <2>1, <2>3 DEF Inv
      <4> PICK m \in Parts : stat[j] = Entry(j, m, latest[<<j, m>>]) /\ latest[<<j, m>>] # 0 /\ latest[<<j, Other(m)>>] = 0
        BY DEF Inv
      <4> Other(m) \in Parts BY DEF Parts, Other
      <4> QED BY <3>2, <2>7
    <3> QED BY <3>1, <3>2
  <2>11. \A j \in Vessels \ DOMAIN stat' : \A m \in Parts : latest'[<<j, m>>] = 0
    <3>1. \A j \in Vessels \ DOMAIN stat : \A m \in Parts : latest[<<j, m>>] = 0 BY DEF Inv
    <3> QED BY <3>1, <2>1, <2>7
  <2>12. \A i, j \in Vessels, m, o \in Parts : (latest'[<<i, m>>] = latest'[<<j, o>>] /\ latest'[<<i, m>>] # 0) => (i = j /\ m = o)
    <3> SUFFICES ASSUME NEW i \in Vessels, NEW j \in Vessels, NEW m \in Parts, NEW o \in Parts,
                        latest'[<<i, m>>] = latest'[<<j, o>>], latest'[<<i, m>>] # 0
                 PROVE  i = j /\ m = o OBVIOUS
    <3>1. latest[<<i, m>>] \in Nat /\ latest[<<i, m>>] <= serial /\ latest[<<j, o>>] \in Nat /\ latest[<<j, o>>] <= serial /\ serial \in Nat
      BY DEF Inv
    <3>2. \A a \in Nat, s \in Nat : a <= s => a # s + 1 OBVIOUS
    <3> QED BY <3>1, <3>2, <2>7 DEF Inv
  <2> QED BY <2>1, <2>6, <2>8, <2>9, <2>10, <2>11, <2>12 DEF Inv
<1>2. CASE k \in DOMAIN stat /\ stat[k][1] # n
  <2> USE <1>2, Complete
  <2>1. DOMAIN stat' = DOMAIN stat \ {k} BY WithoutDomain
  <2>3. \A x \in DOMAIN stat \ {k} : stat'[x] = stat[x] BY WithoutValue
  <2>4. /\ serial' = serial + 1 /\ used' = used \cup {serial + 1, latest[<<k, Other(n)>>]}
        /\ latest' = [latest EXCEPT ![<<k, "A">>] = 0, ![<<k, "B">>] = 0] OBVIOUS
  <2>5. latest[<<k, Other(n)>>] # 0 /\ Other(n) \in Parts
    BY DEF Inv, Parts, Other, Entry
  <2> HIDE <1>2, Complete
  <2>6. latest' \in [Vessels \X Parts -> Nat] /\ serial' \in Nat BY <2>4 DEF Inv
  <2>7. \A j \in Vessels, m \in Parts : latest'[<<j, m>>] = IF j = k THEN 0 ELSE latest[<<j, m>>]
    BY <2>4 DEF Inv, Parts
  <2>8. \A j \in Vessels, m \in Parts : latest'[<<j, m>>] <= serial' /\ latest'[<<j, m>>] \notin (used' \ {0})
    <3> SUFFICES ASSUME NEW j \in Vessels, NEW m \in Parts, j # k
                 PROVE  latest[<<j, m>>] <= serial + 1 /\ latest[<<j, m>>] \notin ((used \cup {serial + 1, latest[<<k, Other(n)>>]}) \ {0})
      BY <2>4, <2>7 DEF Inv
    <3>1. latest[<<j, m>>] \in Nat /\ latest[<<j, m>>] <= serial /\ serial \in Nat BY DEF Inv
    <3>2. latest[<<j, m>>] # 0 => latest[<<j, m>>] # latest[<<k, Other(n)>>] BY <2>5 DEF Inv
    <3>3. latest[<<j, m>>] # serial + 1 BY <3>1
    <3>4. latest[<<j, m>>] \notin (used \ {0}) BY DEF Inv
    <3> QED BY <3>1, <3>2, <3>3, <3>4
  <2>9. \A u \in used' : u \in Nat /\ u <= serial' /\ u # 0
    <3>1. latest[<<k, Other(n)>>] \in Nat /\ latest[<<k, Other(n)>>] <= serial /\ serial \in Nat BY <2>5 DEF Inv
    <3>2. serial + 1 # 0 BY <3>1
    <3> QED BY <3>1, <3>2, <2>4, <2>5 DEF Inv
  <2>10. \A j \in DOMAIN stat' : \E m \in Parts :
            /\ stat'[j] = Entry(j, m, latest'[<<j, m>>])
            /\ latest'[<<j, m>>] # 0 /\ latest'[<<j, Other(m)>>] = 0
    <3> SUFFICES ASSUME NEW j \in DOMAIN stat' PROVE \E m \in Parts :
            /\ stat'[j] = Entry(j, m, latest'[<<j, m>>])
            /\ latest'[<<j, m>>] # 0 /\ latest'[<<j, Other(m)>>] = 0 OBVIOUS
    <3> j \in DOMAIN stat /\ j # k /\ j \in Vessels /\ stat'[j] = stat[j] BY <2>1, <2>3 DEF Inv
    <3> PICK m \in Parts : stat[j] = Entry(j, m, latest[<<j, m>>]) /\ latest[<<j, m>>] # 0 /\ latest[<<j, Other(m)>>] = 0
      BY DEF Inv
    <3> Other(m) \in Parts BY DEF Parts, Other
    <3> QED BY <2>7
  <2>11. \A j \in Vessels \ DOMAIN stat' : \A m \in Parts : latest'[<<j, m>>] = 0
    <3>1. \A j \in Vessels \ DOMAIN stat : \A m \in Parts : latest[<<j, m>>] = 0 BY DEF Inv
    <3> QED BY <3>1, <2>1, <2>7
  <2>12. \A i, j \in Vessels, m, o \in Parts : (latest'[<<i, m>>] = latest'[<<j, o>>] /\ latest'[<<i, m>>] # 0) => (i = j /\ m = o)
    BY <2>7 DEF Inv
  <2> QED BY <2>1, <2>6, <2>8, <2>9, <2>10, <2>11, <2>12 DEF Inv
<1> QED BY <1>1, <1>2

LEMMA Stutter == ASSUME Inv, UNCHANGED vars PROVE Inv'
  BY DEF Inv, vars

THEOREM Invariant == Spec => []Inv
  BY Start, Step, Stutter, PTL DEF Spec

(* One pending half per vessel: it belongs to it, is its latest arrival and not yet used. *)
THEOREM Spec => []OnePending
<1>1. Inv => OnePending
  <2> SUFFICES ASSUME Inv, NEW k \in DOMAIN stat
               PROVE /\ stat[k][2].vessel = k /\ stat[k][2].part = stat[k][1]
                     /\ stat[k][2].serial \notin used
                     /\ stat[k][2].serial = latest[<<k, stat[k][1]>>]
    BY DEF OnePending
  <2> PICK n \in Parts : stat[k] = Entry(k, n, latest[<<k, n>>]) /\ latest[<<k, n>>] # 0 /\ latest[<<k, Other(n)>>] = 0
    BY DEF Inv
  <2> k \in Vessels BY DEF Inv
  <2> stat[k][1] = n /\ stat[k][2] = Content(k, n, latest[<<k, n>>]) BY DEF Entry
  <2> latest[<<k, n>>] \notin used BY DEF Inv
  <2> QED BY DEF Content
<1> QED BY <1>1, Invariant, PTL

(* What is put together are the two halves of one vessel, in order, one of which has just *)
(* arrived and neither of which was used before.                                             *)
THEOREM Paired ==
  ASSUME Inv, Next
  PROVE  out' # <<>> => /\ out'[1].vessel = out'[2].vessel /\ out'[1].part = "A" /\ out'[2].part = "B"
                        /\ serial' \in {out'[1].serial, out'[2].serial}
                        /\ out'[1].serial \notin used /\ out'[2].serial \notin used
<1> PICK k \in Vessels, n \in Parts : Arrive(k, n) BY DEF Next, Parts
<1>1. CASE ~(k \in DOMAIN stat /\ stat[k][1] # n) BY <1>1, Keeps
<1>2. CASE k \in DOMAIN stat /\ stat[k][1] # n
  <2>1. /\ out' = IF n = "A" THEN <<Content(k, "A", serial + 1), Content(k, "B", latest[<<k, "B">>])>>
                           ELSE <<Content(k, "A", latest[<<k, "A">>]), Content(k, "B", serial + 1)>>
        /\ serial' = serial + 1 BY <1>2, Complete
  <2>2. serial + 1 \notin used /\ serial \in Nat BY DEF Inv
  <2>3. latest[<<k, Other(n)>>] # 0 /\ latest[<<k, Other(n)>>] \notin used BY <1>2 DEF Inv, Parts, Other, Entry
  <2> QED BY <2>1, <2>2, <2>3 DEF Content, Parts, Other
<1> QED BY <1>1, <1>2

(* The latest parts are the ones used, and a report completes as soon as it can. *)
THEOREM Latest ==
  ASSUME Inv, NEW k \in Vessels, NEW n \in Parts, Arrive(k, n)
  PROVE  IF latest[<<k, Other(n)>>] = 0 THEN out' = <<>>
         ELSE out' # <<>> /\ out'[IF n = "A" THEN 2 ELSE 1].serial = latest[<<k, Other(n)>>]
              /\ out'[IF n = "A" THEN 1 ELSE 2].serial = serial'
<1>1. CASE ~(k \in DOMAIN stat /\ stat[k][1] # n)
  <2>1. out' = <<>> BY <1>1, Keeps
  <2>2. latest[<<k, Other(n)>>] = 0
    <3>0. Other(n) \in Parts /\ Other(n) # n BY DEF Parts, Other
    <3>1. CASE k \notin DOMAIN stat BY <3>0, <3>1 DEF Inv
    <3>2. CASE k \in DOMAIN stat
      <4> PICK m \in Parts : stat[k] = Entry(k, m, latest[<<k, m>>]) /\ latest[<<k, m>>] # 0 /\ latest[<<k, Other(m)>>] = 0
        BY <3>2 DEF Inv
      <4> m = n BY <3>2, <1>1 DEF Entry
      <4> QED BY <3>0
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>1, <2>2
<1>2. CASE k \in DOMAIN stat /\ stat[k][1] # n
  <2>1. /\ out' = IF n = "A" THEN <<Content(k, "A", serial + 1), Content(k, "B", latest[<<k, "B">>])>>
                           ELSE <<Content(k, "A", latest[<<k, "A">>]), Content(k, "B", serial + 1)>>
        /\ serial' = serial + 1 BY <1>2, Complete
  <2>2. latest[<<k, Other(n)>>] # 0 BY <1>2 DEF Inv, Parts, Other, Entry
  <2> QED BY <2>1, <2>2 DEF Content, Parts, Other
<1> QED BY <1>1, <1>2

(* An arrival touches nothing filed under another vessel. *)
THEOREM Apart ==
  ASSUME NEW k \in Vessels, NEW n \in Parts, Arrive(k, n), NEW j \in Vessels, j # k
  PROVE  (j \in DOMAIN stat <=> j \in DOMAIN stat') /\ (j \in DOMAIN stat => stat'[j] = stat[j])
  BY WithoutDomain, WithoutValue, WithDomain, WithValue DEF Arrive, StatStep
=============================================================================
