---------------------------- MODULE ParserProofs ----------------------------
(* Laws of the whole parser, proved with TLAPS for every sentence, clock and   *)
(* memory, whatever the decoders answer (proofs/ has stand-ins for them): what *)
(* an error may change, which sentences touch which part of the memory, and    *)
(* what an answer depends on.                                                  *)
EXTENDS NmeaParser, TLAPS

Kind(p) == IF p = <<>> THEN 0 ELSE Sextets(p)[1]
Only(st, o) == o.st = st \/ \E x : o.st = [st EXCEPT !.stat = x]

LEMMA PayloadRefused ==
  ASSUME NEW p, NEW own, NEW stn, NEW now, NEW st, ~ValidPayload(p)
  PROVE  Payload(p, own, stn, now, st) = Out(st, Invalid)
  BY DEF Payload

LEMMA PayloadPlain ==
  ASSUME NEW p, NEW own, NEW stn, NEW now, NEW st, ValidPayload(p), Kind(p) # 24
  PROVE  /\ Payload(p, own, stn, now, st).st = st
         /\ \A st2 : Payload(p, own, stn, now, st).r = Payload(p, own, stn, now, st2).r
<1> DEFINE t == Kind(p)
<1>1. CASE t \in {1, 2, 3} BY <1>1 DEF Payload, Out, Kind, TLCEval
<1>2. CASE t = 4 BY <1>2 DEF Payload, Out, Kind, TLCEval
<1>3. CASE t = 5 BY <1>3 DEF Payload, OutDev, Kind, TLCEval
<1>4. CASE t = 6 BY <1>4 DEF Payload, Out, Kind, TLCEval
<1>5. CASE t = 9 BY <1>5 DEF Payload, Out, Kind, TLCEval
<1>6. CASE t = 10 BY <1>6 DEF Payload, Out, Kind, TLCEval
<1>7. CASE t = 18 BY <1>7 DEF Payload, Out, Kind, TLCEval
<1>8. CASE t = 21 BY <1>8 DEF Payload, Out, Kind, TLCEval
<1>9. CASE t = 27 BY <1>9 DEF Payload, OutDev, Kind, TLCEval
<1>10. CASE ~(t \in {1, 2, 3, 4, 5, 6, 9, 10, 18, 21, 24, 27}) BY <1>10 DEF Payload, Out, Err, Kind, TLCEval
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10

LEMMA PayloadStat ==
  ASSUME NEW p, NEW own, NEW stn, NEW now, NEW st, ValidPayload(p), Kind(p) = 24
  PROVE  LET o == Payload(p, own, stn, now, st) IN
         \/ o = Out(st, Invalid)
         \/ \E x : o.st = [st EXCEPT !.stat = x] /\ o.r.k # "Err"
<1> DEFINE sx == Sextets(p)
           part == U(sx, Static24A.part)
           d == IF part = 0 THEN Decode24A(sx, own) ELSE Decode24B(sx, own)
           g == StatStep(st.stat, d.mmsi, IF part = 0 THEN "A" ELSE "B", d)
           o == Payload(p, own, stn, now, st)
<1>1. o = IF part > 1 THEN Out(st, Invalid)
          ELSE Out([st EXCEPT !.stat = g[1]], IF g[2] = <<>> THEN Incomplete ELSE Merge24(d, g[2][1], g[2][2]))
  BY DEF Payload, Kind, TLCEval
<1> HIDE DEF g, d, part, o
<1>2. Incomplete.k # "Err" BY DEF Incomplete
<1>3. Merge24(d, g[2][1], g[2][2]).k # "Err" BY Reports
<1>4. CASE part > 1 BY <1>1, <1>4 DEF o
<1>5. CASE ~(part > 1)
  <2>1. o.st = [st EXCEPT !.stat = g[1]] BY <1>1, <1>5 DEF Out
  <2>2. o.r = IF g[2] = <<>> THEN Incomplete ELSE Merge24(d, g[2][1], g[2][2]) BY <1>1, <1>5 DEF Out
  <2>3. o.r.k # "Err" BY <2>2, <1>2, <1>3
  <2> QED BY <2>1, <2>3 DEF o
<1> QED BY <1>4, <1>5

(* A payload touches only the class B halves, and an error nothing at all. *)
LEMMA PayloadLaw ==
  ASSUME NEW p, NEW own, NEW stn, NEW now, NEW st
  PROVE  LET o == Payload(p, own, stn, now, st) IN Only(st, o) /\ (o.r.k = "Err" => o.st = st)
<1>1. CASE ~ValidPayload(p) BY <1>1, PayloadRefused DEF Out, Only
<1>2. CASE ValidPayload(p) /\ Kind(p) # 24 BY <1>2, PayloadPlain DEF Only
<1>3. CASE ValidPayload(p) /\ Kind(p) = 24 BY <1>3, PayloadStat DEF Out, Only
<1> QED BY <1>1, <1>2, <1>3

(* A satellite sentence touches only the groups, and an error nothing at all. *)
LEMMA GsvLaw ==
  ASSUME NEW fs, NEW ty, NEW nav, NEW st
  PROVE  LET o == GsvGiven(fs, ty, nav, st) IN
         /\ o.st = st \/ \E x : o.st = [st EXCEPT !.gsv = x]
         /\ o.r.k = "Err" => o.st = st
<1> DEFINE c == Nat0(fs, 1, 255)
           n == Nat0(fs, 2, 255)
           g == GsvStep(st.gsv, <<ty, c[1]>>, c[1], n[1], Satellites(fs, nav))
           o == GsvGiven(fs, ty, nav, st)
           r == IF g[2] = <<>> THEN Incomplete ELSE [k |-> "Gsv", sats |-> FlattenSeq(g[2])]
<1>1. o = Out(st, Invalid) \/ o = Out([st EXCEPT !.gsv = g[1]], r) BY DEF GsvGiven
<1> HIDE DEF g, o, c, n
<1>2. r.k # "Err" BY DEF Incomplete
<1> HIDE DEF r
<1> QED BY <1>1, <1>2 DEF Out, o

(* An AIS sentence leaves the groups alone.  An error leaves everything alone, unless the *)
(* sentence was the half that completed a two-part message: then that one is gone.         *)
LEMMA AisLaw ==
  ASSUME NEW fs, NEW ty, NEW now, NEW st, st = [frag |-> st.frag, gsv |-> st.gsv, stat |-> st.stat]
  PROVE  LET o == AisGiven(fs, ty, now, st) IN
         /\ o.st.gsv = st.gsv
         /\ o.r.k = "Err" => o.st = st \/ \E key \in DOMAIN st.frag : o.st = [st EXCEPT !.frag = Without(st.frag, key)]
<1> DEFINE c == UInt(Field(fs, 1), 255)
           n == IF Len(fs) > 2 THEN UInt(Field(fs, 2), 255) ELSE <<0>>
           id == MsgId(Field(fs, 3))
           ch == Field(fs, 4)
           p == Field(fs, 5)
           own == Formatter(ty) = VDO
           stn == Station(Talker(ty))
           key == <<Formatter(ty), id[1], ch>>
           g == FragStep(st.frag, key, n[1], p)
           st2 == [st EXCEPT !.frag = g[1]]
           o == AisGiven(fs, ty, now, st)
<1>1. \/ o = Out(st, Invalid)
      \/ o = Payload(p, own, stn, now, st)
      \/ o = Out(st, Incomplete)
      \/ o = Out(st2, Incomplete) /\ g[2] = <<>>
      \/ o = Payload(g[2][1] \o g[2][2], own, stn, now, st2) /\ g[2] # <<>>
  BY DEF AisGiven
<1>2. g[2] # <<>> => key \in DOMAIN st.frag /\ g[1] = Without(st.frag, key)
  BY DEF FragStep
<1>3. st2.gsv = st.gsv OBVIOUS
<1>4. Incomplete.k # "Err" BY DEF Incomplete
<1> HIDE DEF g, st2, o, p, own, stn, key, c, n, id, ch
<1>5. CASE o = Out(st, Invalid) BY <1>5 DEF Out, o
<1>6. CASE o = Payload(p, own, stn, now, st)
  <2>1. Only(st, o) /\ (o.r.k = "Err" => o.st = st) BY <1>6, PayloadLaw
  <2>2. o.st.gsv = st.gsv BY <2>1 DEF Only
  <2> QED BY <2>1, <2>2 DEF o
<1>7. CASE o = Out(st, Incomplete) BY <1>7, <1>4 DEF Out, o
<1>8. CASE o = Out(st2, Incomplete) /\ g[2] = <<>> BY <1>8, <1>3, <1>4 DEF Out, o
<1>9. CASE o = Payload(g[2][1] \o g[2][2], own, stn, now, st2) /\ g[2] # <<>>
  <2>1. Only(st2, o) /\ (o.r.k = "Err" => o.st = st2) BY <1>9, PayloadLaw
  <2>2. o.st.gsv = st2.gsv BY <2>1 DEF Only, st2
  <2>3. st2 = [st EXCEPT !.frag = Without(st.frag, key)] /\ key \in DOMAIN st.frag BY <1>2, <1>9 DEF st2
  <2> QED BY <2>1, <2>2, <2>3, <1>3 DEF o
<1> QED BY <1>1, <1>5, <1>6, <1>7, <1>8, <1>9

Memory(st) == st = [frag |-> st.frag, gsv |-> st.gsv, stat |-> st.stat]

(* C04: a sentence answered with an error leaves no trace, unless it is the half that *)
(* completes a two-part message.                                                       *)
THEOREM NoTrace ==
  ASSUME NEW st, Memory(st), NEW now, NEW s, Step(st, now, s).r.k = "Err"
  PROVE  LET st2 == Step(st, now, s).st IN
         st2 = st \/ \E key \in DOMAIN st.frag : st2 = [st EXCEPT !.frag = Without(st.frag, key)]
<1> DEFINE fs == Split(Body(s))
           ty == Bytes(fs[1])
           f == Formatter(ty)
           nav == NavSystem(Talker(ty))
           o == Step(st, now, s)
<1>1. \/ o.st = st
      \/ o = GsvGiven(fs, ty, nav, st)
      \/ o = AisGiven(fs, ty, now, st)
  BY DEF Step, Out, TLCEval, Formats
<1> HIDE DEF fs, ty, nav, o
<1>2. CASE o = GsvGiven(fs, ty, nav, st) BY <1>2, GsvLaw DEF o
<1>3. CASE o = AisGiven(fs, ty, now, st) BY <1>3, AisLaw DEF o, Memory
<1> QED BY <1>1, <1>2, <1>3 DEF o

(* C09: a sentence that is complete in itself - any but a satellite sentence, a half of a *)
(* two-part message and a class B static report - changes nothing and its answer is the    *)
(* same whatever is in memory.                                                              *)
Complete(s) ==
  LET fs == Split(Body(s))  ty == Bytes(fs[1])  p == Field(fs, 5) IN
  /\ ~(ty # <<>> /\ ty[1] = Dollar /\ Formatter(ty) = FmtGsv)
  /\ (ty # <<>> /\ ty[1] = Bang /\ Formatter(ty) \in {VDM, VDO}) =>
       /\ UInt(Field(fs, 1), 255) = <<1>>
       /\ ValidPayload(p) => Kind(p) # 24

LEMMA AisComplete ==
  ASSUME NEW st, NEW now, NEW fs, NEW ty, UInt(Field(fs, 1), 255) = <<1>>, ValidPayload(Field(fs, 5)) => Kind(Field(fs, 5)) # 24
  PROVE  AisGiven(fs, ty, now, st).st = st /\ \A st2 : AisGiven(fs, ty, now, st).r = AisGiven(fs, ty, now, st2).r
<1> DEFINE n == IF Len(fs) > 2 THEN UInt(Field(fs, 2), 255) ELSE <<0>>
           p == Field(fs, 5)
           own == Formatter(ty) = VDO
           stn == Station(Talker(ty))
<1>0. UInt(Field(fs, 1), 255) # <<>> /\ UInt(Field(fs, 1), 255)[1] = 1 OBVIOUS
<1>1. CASE n = <<>> BY <1>0, <1>1 DEF AisGiven, Out
<1>2. CASE n # <<>>
  <2>1. \A m : AisGiven(fs, ty, now, m) = Payload(p, own, stn, now, m) BY <1>0, <1>2 DEF AisGiven
  <2>2. CASE ~ValidPayload(p) BY <2>1, <2>2, PayloadRefused DEF Out
  <2>3. CASE ValidPayload(p) BY <2>1, <2>3, PayloadPlain
  <2> QED BY <2>2, <2>3
<1> QED BY <1>1, <1>2

THEOREM HistoryFree ==
  ASSUME NEW st, NEW now, NEW s, Complete(s)
  PROVE  Step(st, now, s).st = st /\ \A st2 : Step(st, now, s).r = Step(st2, now, s).r
<1> DEFINE fs == Split(Body(s))
           ty == Bytes(fs[1])
           f == Formatter(ty)
           nav == NavSystem(Talker(ty))
           gn == ty # <<>> /\ ty[1] = Dollar /\ f \in Formats
           ai == ty # <<>> /\ ty[1] = Bang /\ f \in {VDM, VDO}
<1>1. CASE ~ChecksumOk(s) BY <1>1 DEF Step, Out
<1>2. CASE ChecksumOk(s) /\ Len(fs) < 2 BY <1>2 DEF Step, Out, TLCEval
<1>3. CASE ChecksumOk(s) /\ ~(Len(fs) < 2) /\ gn
  <2> f # FmtGsv BY <1>3 DEF Complete
  <2> f \in Formats BY <1>3
  <2>1. \A m : Step(m, now, s) = CASE f = FmtGga -> Out(m, Gga(fs, nav, now))
                                   [] f = FmtRmc -> Out(m, Rmc(fs, nav, now))
                                   [] f = FmtGsa -> Out(m, Gsa(fs, nav))
                                   [] f = FmtGsv -> GsvGiven(fs, ty, nav, m)
                                   [] f = FmtVtg -> Out(m, Vtg(fs, nav))
                                   [] f = FmtGll -> Out(m, Gll(fs, nav, now))
    BY <1>3 DEF Step, TLCEval
  <2> HIDE DEF f, fs, ty, nav
  <2>2. \E r : \A m : Step(m, now, s) = Out(m, r)
    <3>1. \/ \A m : Step(m, now, s) = Out(m, Gga(fs, nav, now))
          \/ \A m : Step(m, now, s) = Out(m, Rmc(fs, nav, now))
          \/ \A m : Step(m, now, s) = Out(m, Gsa(fs, nav))
          \/ \A m : Step(m, now, s) = Out(m, Vtg(fs, nav))
          \/ \A m : Step(m, now, s) = Out(m, Gll(fs, nav, now))
      BY <2>1 DEF Formats
    <3> QED BY <3>1
  <2> QED BY <2>2 DEF Out
<1>4. CASE ChecksumOk(s) /\ ~(Len(fs) < 2) /\ ~gn /\ ai
  <2>1. \A m : Step(m, now, s) = AisGiven(fs, ty, now, m) BY <1>4 DEF Step, TLCEval
  <2>2. UInt(Field(fs, 1), 255) = <<1>> /\ (ValidPayload(Field(fs, 5)) => Kind(Field(fs, 5)) # 24) BY <1>4 DEF Complete
  <2> HIDE DEF fs, ty
  <2> QED BY <2>1, <2>2, AisComplete
<1>5. CASE ChecksumOk(s) /\ ~(Len(fs) < 2) /\ ~gn /\ ~ai BY <1>5 DEF Step, Out, TLCEval
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5
=============================================================================
