----------------------------- MODULE NmeaParser -----------------------------
(* The parser as a state machine: Step(st, now, s) is the memory and the      *)
(* result after sentence s (a sequence of character codes) was handed to a    *)
(* parser with memory st while the UTC clock shows now.                       *)
EXTENDS Codes, AisDecode, Gnss, Store

Err(e) == [k |-> "Err", e |-> e]
Incomplete == [k |-> "Incomplete"]
Out(st, r) == [st |-> st, r |-> r, dev |-> <<>>]
(* The same, with a known deviation: its name and the values seen instead. *)
OutDev(st, r, id, v) == [st |-> st, r |-> r, dev |-> << [id |-> id, v |-> v] >>]

----------------------------------------------------------------------------
(* Framing: body and checksum text are separated by the last asterisk. *)
Body(s)  == LET p == LastPos(s, Star) IN IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1)
Check(s) == LET p == LastPos(s, Star) IN IF p = 0 THEN <<>> ELSE SubSeq(s, p + 1, Len(s))
ChecksumOk(s) == Check(s) = <<>> \/ Check(s) = Hex2(XorSum(Body(s)))

(* The sentence type is measured in UTF-8 bytes. *)
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Bytes(s) == IF IsAscii(s) THEN s ELSE FlattenSeq([i \in 1..Len(s) |-> Utf8(s[i])])

(* A six-byte type is prefix, talker and a three-letter formatter. *)
Talker(ty)    == SubSeq(ty, 2, IF Len(ty) < 3 THEN Len(ty) ELSE 3)
Formatter(ty) == IF Len(ty) = 6 THEN SubSeq(ty, 4, 6) ELSE <<>>

FmtGga == Str("GGA")  FmtRmc == Str("RMC")  FmtGsa == Str("GSA")  FmtGsv == Str("GSV")
FmtVtg == Str("VTG")  FmtGll == Str("GLL")  VDM == Str("VDM")  VDO == Str("VDO")

(* The supported GNSS sentences. *)
Formats == { FmtGga, FmtRmc, FmtGsa, FmtGsv, FmtVtg, FmtGll }

Stations == Str("AB") :> "BaseStation" @@ Str("AD") :> "DependentAisBaseStation"
            @@ Str("AI") :> "MobileStation" @@ Str("AN") :> "AidToNavigationStation"
            @@ Str("AR") :> "AisReceivingStation" @@ Str("AS") :> "LimitedBaseStation"
            @@ Str("AT") :> "AisTransmittingStation" @@ Str("AX") :> "RepeaterStation"
Station(t) == IF t \in DOMAIN Stations THEN Stations[t] ELSE "Other"

----------------------------------------------------------------------------
(* A satellites-in-view sentence. *)
GsvGiven(fs, ty, nav, st) ==
  LET c == Nat0(fs, 1, 255)  n == Nat0(fs, 2, 255)
  IN IF IsBad(c) \/ IsBad(n) \/ c = <<>> \/ n = <<>> THEN Out(st, Invalid)
     ELSE IF n[1] < 1 \/ n[1] > c[1] THEN Out(st, Invalid)
     ELSE LET g == GsvStep(st.gsv, <<ty, c[1]>>, c[1], n[1], Satellites(fs, nav))
          IN Out([st EXCEPT !.gsv = g[1]],
                 IF g[2] = <<>> THEN Incomplete ELSE [k |-> "Gsv", sats |-> FlattenSeq(g[2])])

(* A complete AIS payload. *)
Payload(p, own, station, now, st) ==
  IF ~ValidPayload(p) THEN Out(st, Invalid)
  ELSE
    LET sx == TLCEval(Sextets(p))
        t  == IF p = <<>> THEN 0 ELSE sx[1]
    IN CASE t \in {1, 2, 3} -> Out(st, Decode123(sx, own, station))
         [] t = 4  -> Out(st, Decode4(sx, own, station))
         [] t = 5  -> OutDev(st, Decode5(sx, own, now), "ETA-SECONDS", Deviant5(sx, now))
         [] t = 6  -> Out(st, Decode6(sx, own, station))
         [] t = 9  -> Out(st, Decode9(sx, own, station))
         [] t = 10 -> Out(st, Decode10(sx, own, station))
         [] t = 18 -> Out(st, Decode18(sx, own, station))
         [] t = 21 -> Out(st, Decode21(sx, own, station))
         [] t = 24 ->
              LET part == U(sx, Static24A.part)
                  d == IF part = 0 THEN Decode24A(sx, own) ELSE Decode24B(sx, own)
              IN IF part > 1 THEN Out(st, Invalid)
                 ELSE LET g == StatStep(st.stat, d.mmsi, IF part = 0 THEN "A" ELSE "B", d)
                      IN Out([st EXCEPT !.stat = g[1]],
                             IF g[2] = <<>> THEN Incomplete ELSE Merge24(d, g[2][1], g[2][2]))
         [] t = 27 -> OutDev(st, Decode27(sx, own, station), "T27-LAYOUT", Deviant27(sx))
         [] OTHER  -> Out(st, Err("Unsupported"))

(* An AIS sentence: count, number, message id, radio channel, payload, fill bits. *)
AisGiven(fs, ty, now, st) ==
  LET c == UInt(Field(fs, 1), 255)
      n == IF Len(fs) > 2 THEN UInt(Field(fs, 2), 255) ELSE <<0>>
      id == MsgId(Field(fs, 3))
      ch == Field(fs, 4)
      p  == Field(fs, 5)
      own == Formatter(ty) = VDO
      stn == Station(Talker(ty))
  IN IF c = <<>> \/ n = <<>> THEN Out(st, Invalid)
     ELSE IF c[1] = 1 THEN Payload(p, own, stn, now, st)
     ELSE IF c[1] # 2 \/ id = <<>> \/ ~(n[1] \in {1, 2}) THEN Out(st, Incomplete)
     ELSE LET g == FragStep(st.frag, <<Formatter(ty), id[1], ch>>, n[1], p)
              st2 == [st EXCEPT !.frag = g[1]]
          IN IF g[2] = <<>> THEN Out(st2, Incomplete)
             ELSE Payload(g[2][1] \o g[2][2], own, stn, now, st2)

Step(st, now, s) ==
  IF ~ChecksumOk(s) THEN Out(st, Err("Corrupted"))
  ELSE
    LET b  == Body(s)
        fs == TLCEval(Split(b))
        ty == TLCEval(Bytes(fs[1]))
        f  == Formatter(ty)
        nav == NavSystem(Talker(ty))
    IN IF Len(fs) < 2 THEN Out(st, Invalid)
       ELSE IF ty # <<>> /\ ty[1] = Dollar /\ f \in Formats THEN
         CASE f = FmtGga -> Out(st, Gga(fs, nav, now))
           [] f = FmtRmc -> Out(st, Rmc(fs, nav, now))
           [] f = FmtGsa -> Out(st, Gsa(fs, nav))
           [] f = FmtGsv -> GsvGiven(fs, ty, nav, st)
           [] f = FmtVtg -> Out(st, Vtg(fs, nav))
           [] f = FmtGll -> Out(st, Gll(fs, nav, now))
       ELSE IF ty # <<>> /\ ty[1] = Bang /\ f \in {VDM, VDO} THEN AisGiven(fs, ty, now, st)
       ELSE Out(st, Err("Unsupported"))
=============================================================================
