----------------------------- MODULE AisDecode -----------------------------
(* What a complete AIS payload means.  Quantities stay on the wire scale:     *)
(* positions in 1/10000 minute, speed in 1/10 knot, course and heading in     *)
(* 1/10 degree, rate of turn in AIS units.  <<>> is "not available".          *)
EXTENDS SixBit, Calendar, AisLayout, Country

Opt(v, missing) == IF v = missing THEN <<>> ELSE <<v>>
Lon4(sx, f) == Opt(S(sx, f), 108600000)      \* 181 degrees
Lat4(sx, f) == Opt(S(sx, f),  54600000)      \*  91 degrees

NavStatusNames ==
  << "UnderWayUsingEngine", "AtAnchor", "NotUnderCommand", "RestrictedManoeuverability",
     "ConstrainedByDraught", "Moored", "Aground", "EngagedInFishing", "UnderWaySailing",
     "Reserved9", "Reserved10", "Reserved11", "Reserved12", "Reserved13", "AisSartIsActive",
     "NotDefined" >>
NavStatus(v) == IF v <= 15 THEN NavStatusNames[v + 1] ELSE "NotDefined"

ShipTypes3x == << "Fishing", "Towing", "TowingLong", "DredgingOrUnderwaterOps", "DivingOps",
                  "MilitaryOps", "Sailing", "PleasureCraft", "Reserved38", "Reserved39" >>
ShipTypes5x == << "Pilot", "SearchAndRescue", "Tug", "PortTender", "AntiPollutionEquipment",
                  "LawEnforcement", "SpareLocal56", "SpareLocal57", "MedicalTransport",
                  "Noncombatant" >>
ShipTypeTens == << "NotAvailable", "Reserved1", "WingInGround", "", "HighSpeedCraft", "",
                   "Passenger", "Cargo", "Tanker", "Other" >>
ShipType(v) ==
  IF v > 99 THEN "NotAvailable"
  ELSE IF v \div 10 = 3 THEN ShipTypes3x[(v % 10) + 1]
  ELSE IF v \div 10 = 5 THEN ShipTypes5x[(v % 10) + 1]
  ELSE ShipTypeTens[v \div 10 + 1]

CargoNames == << "Undefined", "HazardousCategoryA", "HazardousCategoryB", "HazardousCategoryC",
                 "HazardousCategoryD", "Reserved5", "Reserved6", "Reserved7", "Reserved8",
                 "Reserved9" >>
CargoType(v) == IF v > 99 \/ v \div 10 \in {0, 3, 5} THEN "Undefined" ELSE CargoNames[(v % 10) + 1]

FixNames == << "Undefined", "GPS", "GLONASS", "GPSGLONASS", "LoranC", "Chayka",
               "IntegratedNavigationSystem", "Surveyed", "Galileo" >>
FixType(v) == IF v <= 8 THEN FixNames[v + 1] ELSE "Undefined"

AidNames ==
  << "NotSpecified", "ReferencePoint", "Racon", "FixedStructure", "Reserved4", "LightWithoutSectors",
     "LightWithSectors", "LeadingLightFront", "LeadingLightRear", "BeaconCardinalNorth",
     "BeaconCardinalEast", "BeaconCardinalSouth", "BeaconCardinalWest", "BeaconLateralPort",
     "BeaconLateralStarboard", "BeaconLateralPreferredChannelPort",
     "BeaconLateralPreferredChannelStarboard", "BeaconIsolatedDanger", "BeaconSafeWater",
     "BeaconSpecialMark", "CardinalMarkNorth", "CardinalMarkEast", "CardinalMarkSouth",
     "CardinalMarkWest", "PortHandMark", "StarboardHandMark", "PreferredChannelPort",
     "PreferredChannelStarboard", "IsolatedDanger", "SafeWater", "SpecialMark", "LightVessel" >>
AidType(v) == AidNames[v + 1]

NonEmpty(t) == IF t = <<>> THEN <<>> ELSE <<t>>

(* UTC second values above 59 describe the positioning system instead. *)
PosMeta(ts) == CASE ts = 60 -> <<>>
                 [] ts = 61 -> <<"ManualInputMode">>
                 [] ts = 62 -> <<"DeadReckoningMode">>
                 [] ts = 63 -> <<"Inoperative">>
                 [] OTHER   -> <<"Operative">>

(* Rate of turn: -126..126 is a sensor value, +-127 only tells the direction. *)
Rot(v)    == IF v >= -126 /\ v <= 126 THEN <<v>> ELSE <<>>
RotDir(v) == IF v = -128 THEN <<>> ELSE IF v <= -2 THEN <<-1>> ELSE IF v < 2 THEN <<0>> ELSE <<1>>

Manoeuvre(v) == CASE v = 1 -> <<FALSE>> [] v = 2 -> <<TRUE>> [] OTHER -> <<>>

Vdd(own, station) ==     \* a dynamic report in which everything is "not available"
  [ k |-> "Vdd", own |-> own, st |-> station, cls |-> "Unknown", mmsi |-> 0, nav |-> "NotDefined",
    rot |-> <<>>, rotd |-> <<>>, sog |-> <<>>, acc |-> FALSE, lat |-> <<>>, lon |-> <<>>, cog |-> <<>>,
    hdg |-> <<>>, ts |-> 0, psm |-> <<>>, gnss |-> <<>>, man |-> <<>>, raim |-> FALSE, bu |-> <<>>,
    bd |-> <<>>, bs |-> <<>>, bb |-> <<>>, b22 |-> <<>>, bm |-> <<>>, bc |-> <<>>, radio |-> <<>>,
    tlat |-> <<>>, tlon |-> <<>> ]

Decode123(sx, own, station) ==
  LET L == PosA  rot == S(sx, L.rot)  ts == U(sx, L.ts)  hdg == U(sx, L.hdg)
      lat == Lat4(sx, L.lat)  lon == Lon4(sx, L.lon)
  IN [ Vdd(own, station) EXCEPT
         !.cls = "ClassA", !.mmsi = U(sx, L.mmsi), !.nav = NavStatus(U(sx, L.nav)),
         !.rot = Rot(rot), !.rotd = RotDir(rot), !.sog = Opt(U(sx, L.sog), 1023),
         !.acc = B(sx, L.acc), !.lat = lat, !.lon = lon, !.tlat = lat, !.tlon = lon,
         !.cog = Opt(U(sx, L.cog), 3600), !.hdg = IF hdg = 511 THEN <<>> ELSE <<hdg * 10>>,
         !.ts = ts, !.psm = PosMeta(ts), !.man = Manoeuvre(U(sx, L.man)), !.raim = B(sx, L.raim),
         !.radio = <<U(sx, L.radio)>> ]

Decode18(sx, own, station) ==
  LET L == PosB18  hdg == U(sx, L.hdg)  lat == Lat4(sx, L.lat)  lon == Lon4(sx, L.lon)
  IN [ Vdd(own, station) EXCEPT
         !.cls = "ClassB", !.mmsi = U(sx, L.mmsi), !.sog = Opt(U(sx, L.sog), 1023),
         !.acc = B(sx, L.acc), !.lat = lat, !.lon = lon, !.tlat = lat, !.tlon = lon,
         !.cog = Opt(U(sx, L.cog), 3600), !.hdg = IF hdg = 511 THEN <<>> ELSE <<hdg * 10>>,
         !.ts = U(sx, L.ts), !.raim = B(sx, L.raim), !.radio = <<U(sx, L.radio)>>,
         !.bu = <<B(sx, L.unit)>>, !.bd = <<B(sx, L.display)>>, !.bs = <<B(sx, L.dsc)>>,
         !.bb = <<B(sx, L.band)>>, !.b22 = <<B(sx, L.msg22)>>, !.bm = <<B(sx, L.mode)>>,
         !.bc = <<B(sx, L.css)>> ]

(* Type 27 has positions in 1/10 minute, whole knots and whole degrees. *)
Decode27(sx, own, station) ==
  LET L == Long27  la == S(sx, L.lat)  lo == S(sx, L.lon)  sog == U(sx, L.sog)  cog == U(sx, L.cog)
      lat == IF la = 54600 THEN <<>> ELSE <<la * 1000>>
      lon == IF lo = 108600 THEN <<>> ELSE <<lo * 1000>>
  IN [ Vdd(own, station) EXCEPT
         !.cls = "ClassA", !.mmsi = U(sx, L.mmsi), !.nav = NavStatus(U(sx, L.nav)),
         !.acc = B(sx, L.acc), !.raim = B(sx, L.raim), !.lat = lat, !.lon = lon, !.tlat = lat,
         !.tlon = lon, !.sog = IF sog = 63 THEN <<>> ELSE <<sog * 10>>,
         !.cog = IF cog = 511 THEN <<>> ELSE <<cog * 10>>, !.gnss = <<~B(sx, L.gnss)>> ]

(* Known deviation "T27-LAYOUT": what the implementation, pinned by its own unit test,  *)
(* reports instead for these fields of a type 27 message (see known_findings.json).     *)
Deviant27(sx) ==
  LET la == S(sx, <<44,18>>)  lo == S(sx, <<62,17>>)  sog == U(sx, <<62,6>>)  cog == U(sx, <<62,17>>)
  IN [ lat |-> <<la * 1000>>, tlat |-> <<la * 1000>>, lon |-> <<lo * 1000>>, tlon |-> <<lo * 1000>>,
       sog |-> IF sog = 63 THEN <<>> ELSE <<sog * 10>>,
       cog |-> IF cog = 91000 THEN <<>> ELSE <<cog>> ]

Decode4(sx, own, station) ==
  LET L == Base4  fix == U(sx, L.fix)  lat == Lat4(sx, L.lat)  lon == Lon4(sx, L.lon)
  IN [ k |-> "Bsr", own |-> own, st |-> station, mmsi |-> U(sx, L.mmsi),
       time |-> Moment(U(sx, L.year), U(sx, L.month), U(sx, L.day), U(sx, L.hour),
                       U(sx, L.minute), U(sx, L.second)),
       acc |-> B(sx, L.acc), lat |-> lat, lon |-> lon, tlat |-> lat, tlon |-> lon,
       fix |-> IF fix = 0 THEN <<>> ELSE <<FixType(fix)>>, raim |-> B(sx, L.raim),
       radio |-> U(sx, L.radio) ]

(* The next moment with the given month, day, hour and minute; seconds are not sent. *)
Eta(now, month, day, hour, minute, second) ==
  IF month = 0 /\ day = 0 /\ hour = 24 /\ minute = 60 THEN <<>>
  ELSE LET mo == IF month = 0 THEN now[2] ELSE month
           d  == IF day = 0 THEN now[3] ELSE day
           h  == IF hour = 24 THEN 23 ELSE hour
           mi == IF hour = 24 \/ minute = 60 THEN 59 ELSE minute
           s  == IF hour = 24 \/ minute = 60 THEN 59 ELSE second
           this == Moment(now[1], mo, d, h, mi, s)
       IN IF this # <<>> /\ NotAfter(now, this[1]) THEN this
          ELSE Moment(now[1] + 1, mo, d, h, mi, s)

EmptyVsd ==
  [ k |-> "Vsd", own |-> FALSE, cls |-> "Unknown", mmsi |-> 0, ver |-> 0, imo |-> <<>>, call |-> <<>>,
    name |-> <<>>, ship |-> "NotAvailable", cargo |-> "Undefined", vend |-> <<>>, model |-> <<>>,
    ser |-> <<>>, bow |-> <<>>, stern |-> <<>>, port |-> <<>>, stbd |-> <<>>, fix |-> <<>>, eta |-> <<>>,
    dr |-> <<>>, dest |-> <<>>, moth |-> <<>>, ctry |-> <<>> ]

Decode5(sx, own, now) ==
  LET L == Static5  fix == U(sx, L.fix)  mmsi == U(sx, L.mmsi)
  IN [ EmptyVsd EXCEPT
         !.own = own, !.cls = "ClassA", !.mmsi = mmsi, !.ctry = Country(mmsi), !.ver = U(sx, L.ver),
         !.imo = Opt(U(sx, L.imo), 0), !.call = NonEmpty(Text(sx, L.call)),
         !.name = NonEmpty(Text(sx, L.name)), !.ship = ShipType(U(sx, L.shiptype)),
         !.cargo = CargoType(U(sx, L.shiptype)), !.bow = <<U(sx, L.bow)>>,
         !.stern = <<U(sx, L.stern)>>, !.port = <<U(sx, L.port)>>, !.stbd = <<U(sx, L.stbd)>>,
         !.fix = IF fix = 0 THEN <<>> ELSE <<FixType(fix)>>,
         !.eta = Eta(now, U(sx, L.etamonth), U(sx, L.etaday), U(sx, L.etahour), U(sx, L.etaminute), 0),
         !.dr = <<U(sx, L.draught)>>, !.dest = NonEmpty(Text(sx, L.dest)) ]

(* Known deviation "ETA-SECONDS": the implementation, pinned by its own unit test, takes *)
(* the seconds of the ETA from the top six bits of the draught that follows it.          *)
Deviant5(sx, now) ==
  LET L == Static5  s == U(sx, L.draught) \div 4
  IN [ eta |-> Eta(now, U(sx, L.etamonth), U(sx, L.etaday), U(sx, L.etahour), U(sx, L.etaminute),
                   IF s > 59 THEN 59 ELSE s) ]

Decode6(sx, own, station) ==
  LET L == Binary6
  IN [ k |-> "Bam", own |-> own, st |-> station, mmsi |-> U(sx, L.mmsi), seq |-> U(sx, L.seq),
       dmmsi |-> U(sx, L.dmmsi), retr |-> B(sx, L.retr), dac |-> U(sx, L.dac), fid |-> U(sx, L.fid),
       tlat |-> <<>>, tlon |-> <<>> ]

Decode9(sx, own, station) ==
  LET L == Sar9  lat == Lat4(sx, L.lat)  lon == Lon4(sx, L.lon)
  IN [ k |-> "Sar", own |-> own, st |-> station, mmsi |-> U(sx, L.mmsi),
       alt |-> Opt(U(sx, L.alt), 4095), sog |-> Opt(U(sx, L.sog), 1023), acc |-> B(sx, L.acc),
       lat |-> lat, lon |-> lon, tlat |-> lat, tlon |-> lon, cog |-> Opt(U(sx, L.cog), 3600),
       ts |-> U(sx, L.ts), regional |-> U(sx, L.regional), dte |-> ~B(sx, L.dte),
       assigned |-> B(sx, L.assigned), raim |-> B(sx, L.raim), radio |-> U(sx, L.radio) ]

Decode10(sx, own, station) ==
  LET L == Inquiry10
  IN [ k |-> "Udi", own |-> own, st |-> station, mmsi |-> U(sx, L.mmsi), dmmsi |-> U(sx, L.dmmsi) ]

(* The name of an aid to navigation continues in the extension field; a name cut short  *)
(* by trailing spaces gets them back when it continues.                                 *)
PadTo20(s) == s \o [i \in 1..(IF Len(s) < 20 THEN 20 - Len(s) ELSE 0) |-> 32]
Decode21(sx, own, station) ==
  LET L == Aton21  lat == Lat4(sx, L.lat)  lon == Lon4(sx, L.lon)
      nm == Text(sx, L.name)  ext == Text(sx, L.ext)
  IN [ k |-> "Aton", own |-> own, st |-> station, mmsi |-> U(sx, L.mmsi), aid |-> AidType(U(sx, L.aid)),
       name |-> IF ext = <<>> THEN nm ELSE PadTo20(nm) \o ext,
       acc |-> IF B(sx, L.acc) THEN "T" ELSE "F", lat |-> lat, lon |-> lon, tlat |-> lat, tlon |-> lon,
       bow |-> <<U(sx, L.bow)>>, stern |-> <<U(sx, L.stern)>>, port |-> <<U(sx, L.port)>>,
       stbd |-> <<U(sx, L.stbd)>>, fix |-> <<FixType(U(sx, L.fix))>>, ts |-> U(sx, L.ts),
       off |-> B(sx, L.off), regional |-> U(sx, L.regional), raim |-> B(sx, L.raim),
       virtual |-> B(sx, L.virtual), assigned |-> B(sx, L.assigned) ]

(* Type 24: each part is a static report that knows only its own half. *)
Decode24A(sx, own) ==
  LET L == Static24A  mmsi == U(sx, L.mmsi)
  IN [ EmptyVsd EXCEPT !.own = own, !.cls = "ClassB", !.mmsi = mmsi, !.ctry = Country(mmsi),
         !.name = NonEmpty(Text(sx, L.name)) ]
Decode24B(sx, own) ==
  LET L == Static24B  mmsi == U(sx, L.mmsi)
  IN [ EmptyVsd EXCEPT !.own = own, !.cls = "ClassB", !.mmsi = mmsi, !.ctry = Country(mmsi),
         !.ship = ShipType(U(sx, L.shiptype)), !.cargo = CargoType(U(sx, L.shiptype)),
         !.vend = <<Text(sx, L.vend)>>, !.model = <<U(sx, L.model)>>, !.ser = <<U(sx, L.ser)>>,
         !.call = NonEmpty(Text(sx, L.call)), !.bow = <<U(sx, L.bow)>>, !.stern = <<U(sx, L.stern)>>,
         !.port = <<U(sx, L.port)>>, !.stbd = <<U(sx, L.stbd)>>, !.moth = <<U(sx, L.moth)>> ]

(* Part B carries the ship type, call sign, equipment and dimensions, part A the name; *)
(* the report is credited to the vessel as the later sentence names it.                *)
Merge24(later, a, b) == [ b EXCEPT !.name = a.name, !.own = later.own ]
=============================================================================
